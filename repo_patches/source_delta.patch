From c2e329b59738c6f34681feaa49202fdcdbcc1b8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:42 +0000
Subject: [PATCH 01/65] fix: do not count a failed io_getevents as completed
 requests

An interrupted or failed io_getevents returns a negative error code, which was
added to the number of completed requests: the notification thread then either
ended while requests were still pending or never ended.
---
 lib/abstractio/linux_aio_scheduler.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/abstractio/linux_aio_scheduler.cpp b/lib/abstractio/linux_aio_scheduler.cpp
index bd41073..251ca93 100644
--- a/lib/abstractio/linux_aio_scheduler.cpp
+++ b/lib/abstractio/linux_aio_scheduler.cpp
@@ -67,8 +67,10 @@ void LinuxAIOScheduler::notify_loop()
         int num_events = io_getevents(m_ioctx, 1, kMaxNr, events, &timeout);
 
         if (num_events < 0) {
-            std::cerr << "Error in io_getevents: " << std::to_string(errno)
-                      << "(" << strerror(errno) << ")\n";
+            std::cerr << "Error in io_getevents: " << std::to_string(-num_events)
+                      << "(" << strerror(-num_events) << ")\n";
+            // no event has been reaped: there is nothing to notify or to count
+            continue;
         }
 
         if (num_events > 0) {
-- 
2.43.0


From 975c92de9fda4e9eec79c517ded3ad56ad32130d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:42 +0000
Subject: [PATCH 02/65] fix: lost wake-up when the AIO submission queue is full

If all the pending requests complete between the EAGAIN answer of io_submit and
the start of the wait, nobody wakes up the submitting thread.
---
 lib/abstractio/linux_aio_scheduler.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/lib/abstractio/linux_aio_scheduler.cpp b/lib/abstractio/linux_aio_scheduler.cpp
index 251ca93..c53fcaf 100644
--- a/lib/abstractio/linux_aio_scheduler.cpp
+++ b/lib/abstractio/linux_aio_scheduler.cpp
@@ -9,6 +9,7 @@
 #include <climits>
 #include <libaio.h>
 
+#include <chrono>
 #include <iostream>
 
 namespace sse {
@@ -16,6 +17,8 @@ namespace abstractio {
 
 static constexpr size_t kMaxNr = 128;
 
+static constexpr std::chrono::milliseconds kSubmissionRetryDelay(10);
+
 LinuxAIOScheduler::LinuxAIOScheduler(const size_t   page_size,
                                      const unsigned nr_events)
     : m_ioctx(nullptr), m_page_size(page_size), m_nr_events(nr_events),
@@ -150,9 +153,12 @@ size_t LinuxAIOScheduler::submit_iocbs(struct iocb** iocbs, size_t n_iocbs)
             std::unique_lock<std::mutex> lock(m_cv_lock);
 
             m_waiting_submissions = true;
-            while (m_waiting_submissions) {
-                m_cv_submission.wait(lock);
-            }
+            // The queue might have been drained between the answer of
+            // io_submit and this point. In that case, no notification will ever
+            // come, so never wait for it without a timeout.
+            m_cv_submission.wait_for(lock, kSubmissionRetryDelay, [this] {
+                return !m_waiting_submissions;
+            });
         } else {
             m_failed_queries_count.fetch_add(remaining_subs);
             std::cerr << "Submission error: " << res << "\n";
-- 
2.43.0


From 95794555699fcc335932984cee85f70e05a9d6a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:42 +0000
Subject: [PATCH 03/65] fix: a request refused by io_submit must not take the
 rest of its batch down

On an error of io_submit, all the remaining requests were leaked and dropped
without a callback, and the caller was told that no request was accepted,
although some were already submitted.
---
 lib/abstractio/linux_aio_scheduler.cpp | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/lib/abstractio/linux_aio_scheduler.cpp b/lib/abstractio/linux_aio_scheduler.cpp
index c53fcaf..74e1588 100644
--- a/lib/abstractio/linux_aio_scheduler.cpp
+++ b/lib/abstractio/linux_aio_scheduler.cpp
@@ -127,6 +127,7 @@ size_t LinuxAIOScheduler::submit_iocbs(struct iocb** iocbs, size_t n_iocbs)
     // cppcheck-suppress unreadVariable
     int           res            = -EAGAIN;
     size_t        remaining_subs = n_iocbs;
+    size_t        failed_subs    = 0;
     struct iocb** iocbs_head     = iocbs;
 
 
@@ -160,14 +161,23 @@ size_t LinuxAIOScheduler::submit_iocbs(struct iocb** iocbs, size_t n_iocbs)
                 return !m_waiting_submissions;
             });
         } else {
-            m_failed_queries_count.fetch_add(remaining_subs);
-            std::cerr << "Submission error: " << res << "\n";
-            perror("io_submit");
-            return -1;
+            std::cerr << "Submission error: " << res << "(" << strerror(-res)
+                      << ")\n";
+            // the kernel refused the first of the remaining requests: drop
+            // this one and go on with the next ones
+            delete static_cast<LinuxAIORequest*>((*iocbs_head)->data);
+            m_failed_queries_count.fetch_add(1);
+            failed_subs++;
+            remaining_subs--;
+            iocbs_head++;
         }
     }
 
-    return n_iocbs - remaining_subs;
+    if (failed_subs > 0 && failed_subs == n_iocbs) {
+        return -1;
+    }
+
+    return n_iocbs - failed_subs;
 }
 
 int LinuxAIOScheduler::submit_pread(int                     fd,
-- 
2.43.0


From 6ec2158f8ab32906a41444c3207ad9777319bf6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:42 +0000
Subject: [PATCH 04/65] fix: wait_completions could return while the last query
 uses the scheduler

The number of running queries was tested without the lock, so the scheduler
could be destroyed between the decrement and the notification.
---
 lib/abstractio/thread_pool_aio_scheduler.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/lib/abstractio/thread_pool_aio_scheduler.cpp b/lib/abstractio/thread_pool_aio_scheduler.cpp
index 95b7725..b64ff8a 100644
--- a/lib/abstractio/thread_pool_aio_scheduler.cpp
+++ b/lib/abstractio/thread_pool_aio_scheduler.cpp
@@ -32,11 +32,11 @@ ThreadPoolAIOScheduler::~ThreadPoolAIOScheduler()
 
 void ThreadPoolAIOScheduler::wait_completions()
 {
-    while (this->m_running_queries != 0) {
-        std::unique_lock<std::mutex> lock(m_cv_lock);
-        m_cv_submission.wait(lock,
-                             [this] { return this->m_running_queries == 0; });
-    }
+    // The counter must be tested with the lock held: otherwise, the scheduler
+    // could be destroyed while the last query still uses the lock.
+    std::unique_lock<std::mutex> lock(m_cv_lock);
+    m_cv_submission.wait(lock,
+                         [this] { return this->m_running_queries == 0; });
 }
 
 int ThreadPoolAIOScheduler::submit_pread(int                     fd,
-- 
2.43.0


From 6362ab0b154e1f335b246bd511588b93bed15832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:42 +0000
Subject: [PATCH 05/65] fix: create the shared I/O thread pool once, even if
 first used concurrently

---
 lib/abstractio/thread_pool_aio_scheduler.cpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/lib/abstractio/thread_pool_aio_scheduler.cpp b/lib/abstractio/thread_pool_aio_scheduler.cpp
index b64ff8a..16c1f0e 100644
--- a/lib/abstractio/thread_pool_aio_scheduler.cpp
+++ b/lib/abstractio/thread_pool_aio_scheduler.cpp
@@ -13,16 +13,14 @@
 namespace sse {
 namespace abstractio {
 
-static ThreadPool* _shared_io_pool = nullptr;
-
 constexpr uint32_t kAIOThreadsCount = 50;
 
 static ThreadPool& get_shared_io_pool()
 {
-    if (_shared_io_pool == nullptr) {
-        _shared_io_pool = new ThreadPool(kAIOThreadsCount);
-    }
-    return *_shared_io_pool;
+    // never destroyed; the initialization is thread-safe
+    static ThreadPool* shared_io_pool = new ThreadPool(kAIOThreadsCount);
+
+    return *shared_io_pool;
 }
 
 ThreadPoolAIOScheduler::~ThreadPoolAIOScheduler()
-- 
2.43.0


From bd087185a6f0b99fbfa6930b3fb7169ddd6979d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:50 +0000
Subject: [PATCH 06/65] fix: awonvm_vector: write a synchronous append at its
 own position

write() uses the position of the file descriptor: it does not know about the
asynchronous appends, and is not ordered with the position counter when used
concurrently, so values ended up at the position of other ones.
---
 lib/include/sse/schemes/abstractio/awonvm_vector.hpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/lib/include/sse/schemes/abstractio/awonvm_vector.hpp b/lib/include/sse/schemes/abstractio/awonvm_vector.hpp
index 087f142..4eeb0d6 100644
--- a/lib/include/sse/schemes/abstractio/awonvm_vector.hpp
+++ b/lib/include/sse/schemes/abstractio/awonvm_vector.hpp
@@ -220,11 +220,9 @@ size_t awonvm_vector<T, ALIGNMENT>::push_back(const T& val)
     }
 
     size_t pos = m_size.fetch_add(1);
-    // off_t  off = pos * sizeof(T);
+    off_t  off = pos * sizeof(T);
 
-    // fix issue with the alignment of val
-    // int res = pwrite(m_fd, &val, sizeof(T), off);
-    int res = write(m_fd, &val, sizeof(T));
+    int res = pwrite(m_fd, &val, sizeof(T), off);
 
     if (res != sizeof(T)) {
         std::cerr << "Error during pwrite: " << res << "\n";
-- 
2.43.0


From 036fc5a222bebd574a355007a9b6a27875e81d63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:50 +0000
Subject: [PATCH 07/65] fix: awonvm_vector: the index equal to the size is out
 of bounds

---
 lib/include/sse/schemes/abstractio/awonvm_vector.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/include/sse/schemes/abstractio/awonvm_vector.hpp b/lib/include/sse/schemes/abstractio/awonvm_vector.hpp
index 4eeb0d6..3c9d0ad 100644
--- a/lib/include/sse/schemes/abstractio/awonvm_vector.hpp
+++ b/lib/include/sse/schemes/abstractio/awonvm_vector.hpp
@@ -331,7 +331,7 @@ void awonvm_vector<T, ALIGNMENT>::set_use_direct_access(bool flag)
 template<typename T, size_t ALIGNMENT>
 T awonvm_vector<T, ALIGNMENT>::get(size_t index)
 {
-    if (index > m_size.load()) {
+    if (index >= m_size.load()) {
         throw std::invalid_argument("Index (" + std::to_string(index)
                                     + ") out of bounds (size="
                                     + std::to_string(m_size.load()) + ")");
@@ -373,7 +373,7 @@ void awonvm_vector<T, ALIGNMENT>::async_get(size_t            index,
         m_io_warn_flag = true;
     }
 
-    if (index > m_size.load()) {
+    if (index >= m_size.load()) {
         throw std::invalid_argument("Index (" + std::to_string(index)
                                     + ") out of bounds (size="
                                     + std::to_string(m_size.load()) + ")");
@@ -436,7 +436,7 @@ void awonvm_vector<T, ALIGNMENT>::async_gets(
     submissions.reserve(requests.size());
 
     for (const auto& req : requests) {
-        if (req.index > m_size.load()) {
+        if (req.index >= m_size.load()) {
             throw std::invalid_argument("Index (" + std::to_string(req.index)
                                         + ") out of bounds (size="
                                         + std::to_string(m_size.load()) + ")");
-- 
2.43.0


From fd2c95a10c9cca06a3469e8643ea2a1725034d4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:50 +0000
Subject: [PATCH 08/65] fix: awonvm_vector: refuse an asynchronous append once
 committed

---
 lib/include/sse/schemes/abstractio/awonvm_vector.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/include/sse/schemes/abstractio/awonvm_vector.hpp b/lib/include/sse/schemes/abstractio/awonvm_vector.hpp
index 3c9d0ad..1a4fc7c 100644
--- a/lib/include/sse/schemes/abstractio/awonvm_vector.hpp
+++ b/lib/include/sse/schemes/abstractio/awonvm_vector.hpp
@@ -240,6 +240,11 @@ size_t awonvm_vector<T, ALIGNMENT>::push_back(const T& val)
 template<typename T, size_t ALIGNMENT>
 size_t awonvm_vector<T, ALIGNMENT>::async_push_back(const T& val)
 {
+    if (m_is_committed) {
+        throw std::runtime_error(
+            "Invalid state during write: the vector is committed");
+    }
+
     if (!m_io_scheduler) {
         throw std::runtime_error("No IO Scheduler set");
     }
-- 
2.43.0


From 4367c7152219bdd71eb4cab3c8aed14bdb40d3f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:50 +0000
Subject: [PATCH 09/65] fix: awonvm_vector: free the buffer of a refused
 asynchronous append

---
 lib/include/sse/schemes/abstractio/awonvm_vector.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/include/sse/schemes/abstractio/awonvm_vector.hpp b/lib/include/sse/schemes/abstractio/awonvm_vector.hpp
index 1a4fc7c..c3c64f2 100644
--- a/lib/include/sse/schemes/abstractio/awonvm_vector.hpp
+++ b/lib/include/sse/schemes/abstractio/awonvm_vector.hpp
@@ -282,6 +282,8 @@ size_t awonvm_vector<T, ALIGNMENT>::async_push_back(const T& val)
     ret = m_io_scheduler->submit_pwrite(m_fd, buf, sizeof(T), off, buf, cb);
 
     if (ret != 1) {
+        free(buf); // the callback will not be called
+
         // we should have a specific exception type here to be able to return
         // which position was corrupted
         throw std::runtime_error("Error when submitting the read async IO: "
-- 
2.43.0


From 1d3e449d0d24e03d9a46719e453215d7e8e47ad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:50 +0000
Subject: [PATCH 10/65] fix: awonvm_vector: transfer the whole state when
 moving a vector

The size and the committed flag were not transferred, and the destructor of the
moved vector closed file descriptor 0.
---
 .../sse/schemes/abstractio/awonvm_vector.hpp        | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/lib/include/sse/schemes/abstractio/awonvm_vector.hpp b/lib/include/sse/schemes/abstractio/awonvm_vector.hpp
index c3c64f2..3d43971 100644
--- a/lib/include/sse/schemes/abstractio/awonvm_vector.hpp
+++ b/lib/include/sse/schemes/abstractio/awonvm_vector.hpp
@@ -87,7 +87,7 @@ private:
 
     const std::string m_filename;
     bool              m_use_direct_io{false};
-    int               m_fd{0};
+    int               m_fd{-1};
     const size_t      m_device_page_size;
 
     std::atomic_size_t m_size{0};
@@ -173,14 +173,21 @@ template<typename T, size_t ALIGNMENT>
 awonvm_vector<T, ALIGNMENT>::awonvm_vector(awonvm_vector&& vec) noexcept
     : m_filename(vec.m_filename), m_use_direct_io(vec.m_use_direct_io),
       m_fd(vec.m_fd), m_device_page_size(vec.m_device_page_size),
-      m_io_scheduler(std::move(vec.m_io_scheduler))
+      m_size(vec.m_size.load()), m_is_committed(vec.m_is_committed.load()),
+      m_io_scheduler(std::move(vec.m_io_scheduler)),
+      m_io_warn_flag(vec.m_io_warn_flag)
 {
-    vec.m_fd = 0;
+    vec.m_fd   = -1;
+    vec.m_size = 0;
 }
 
 template<typename T, size_t ALIGNMENT>
 awonvm_vector<T, ALIGNMENT>::~awonvm_vector()
 {
+    if (m_fd < 0) {
+        return; // the vector has been moved
+    }
+
     if (!m_is_committed) {
         commit();
     } else {
-- 
2.43.0


From 78a8889b92ca321b3a819f4feea413c01d2a146a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:50 +0000
Subject: [PATCH 11/65] fix: awonvm_vector: ownership of the buffers of a
 batched read

The buffer of a failed or short read was leaked, as were the buffers of a batch
with an index out of bounds, and the buffers of the accepted requests of a
partially accepted batch were freed while the reads were still in progress.
---
 .../sse/schemes/abstractio/awonvm_vector.hpp  | 20 +++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/lib/include/sse/schemes/abstractio/awonvm_vector.hpp b/lib/include/sse/schemes/abstractio/awonvm_vector.hpp
index 3d43971..ab7d326 100644
--- a/lib/include/sse/schemes/abstractio/awonvm_vector.hpp
+++ b/lib/include/sse/schemes/abstractio/awonvm_vector.hpp
@@ -446,17 +446,18 @@ void awonvm_vector<T, ALIGNMENT>::async_gets(
         m_io_warn_flag = true;
     }
 
-    std::vector<Scheduler::PReadSumission> submissions;
-    submissions.reserve(requests.size());
-
     for (const auto& req : requests) {
         if (req.index >= m_size.load()) {
             throw std::invalid_argument("Index (" + std::to_string(req.index)
                                         + ") out of bounds (size="
                                         + std::to_string(m_size.load()) + ")");
         }
+    }
 
+    std::vector<Scheduler::PReadSumission> submissions;
+    submissions.reserve(requests.size());
 
+    for (const auto& req : requests) {
         void* buffer;
         int   ret = posix_memalign(
             (&buffer), ALIGNMENT, std::max(ALIGNMENT, sizeof(T)));
@@ -467,11 +468,18 @@ void awonvm_vector<T, ALIGNMENT>::async_gets(
                 + std::to_string(ret) + "(" + strerror(ret) + ")");
         }
 
+        // The buffer is owned by the callback: it is freed with it, unless it
+        // is handed over to the caller
+        auto buffer_owner
+            = std::make_shared<std::unique_ptr<void, decltype(&free)>>(buffer,
+                                                                       &free);
+
         auto get_callback = req.callback;
-        auto inner_cb     = [get_callback](void* buf, int64_t res) {
+        auto inner_cb = [get_callback, buffer_owner](void* buf, int64_t res) {
             std::unique_ptr<T> result(nullptr);
 
             if (res == sizeof(T)) {
+                buffer_owner->release();
                 result.reset(reinterpret_cast<T*>(buf));
             }
 
@@ -485,10 +493,6 @@ void awonvm_vector<T, ALIGNMENT>::async_gets(
     int ret = m_io_scheduler->submit_preads(submissions);
 
     if (ret < 0 || static_cast<size_t>(ret) != submissions.size()) {
-        for (auto& sub : submissions) {
-            free(sub.buf);
-        }
-
         throw std::runtime_error(
             "Error when submitting the read async IO: errno "
             + std::to_string(ret) + "(" + strerror(ret) + ")");
-- 
2.43.0


From e3c188e3e3df7069f4ed1d47870153364be9176f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:50 +0000
Subject: [PATCH 12/65] fix: awonvm_vector: switch the access mode without a
 scheduler, or with a failing open

The scheduler is optional. If the file cannot be opened in the new mode, keep
the current file descriptor instead of a closed one.
---
 .../sse/schemes/abstractio/awonvm_vector.hpp  | 22 +++++++++----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/lib/include/sse/schemes/abstractio/awonvm_vector.hpp b/lib/include/sse/schemes/abstractio/awonvm_vector.hpp
index ab7d326..d70980d 100644
--- a/lib/include/sse/schemes/abstractio/awonvm_vector.hpp
+++ b/lib/include/sse/schemes/abstractio/awonvm_vector.hpp
@@ -323,19 +323,19 @@ template<typename T, size_t ALIGNMENT>
 void awonvm_vector<T, ALIGNMENT>::set_use_direct_access(bool flag)
 {
     if (flag != m_use_direct_io) {
-        // wait for unfinished async IOs
-        m_io_scheduler->wait_completions();
-
-        // close the current file descriptor
-        close(m_fd);
-
-        // reopen a file descriptor
-        m_fd = utility::open_fd(m_filename, flag);
+        // open a new file descriptor
+        int new_fd = utility::open_fd(m_filename, flag);
 
+        if (m_io_scheduler) {
+            // wait for unfinished async IOs and recreate an async scheduler
+            m_io_scheduler->wait_completions();
+            Scheduler* new_sched = m_io_scheduler->duplicate();
+            m_io_scheduler.reset(new_sched);
+        }
 
-        // recreate an async scheduler
-        Scheduler* new_sched = m_io_scheduler->duplicate();
-        m_io_scheduler.reset(new_sched);
+        // close the previous file descriptor
+        close(m_fd);
+        m_fd = new_fd;
 
         m_use_direct_io = flag;
         m_io_warn_flag  = false;
-- 
2.43.0


From 09a7edfd3b565f2917ef5a7905e40cfd7bb4944e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:50 +0000
Subject: [PATCH 13/65] fix: awonvm_vector: a reserved size must not become the
 size once reopened

---
 lib/include/sse/schemes/abstractio/awonvm_vector.hpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/lib/include/sse/schemes/abstractio/awonvm_vector.hpp b/lib/include/sse/schemes/abstractio/awonvm_vector.hpp
index d70980d..f048d8d 100644
--- a/lib/include/sse/schemes/abstractio/awonvm_vector.hpp
+++ b/lib/include/sse/schemes/abstractio/awonvm_vector.hpp
@@ -9,6 +9,7 @@
 #include <cassert>
 #include <cerrno>
 #include <cstring>
+#include <sys/stat.h>
 #include <unistd.h>
 
 #include <atomic>
@@ -315,6 +316,17 @@ void awonvm_vector<T, ALIGNMENT>::commit() noexcept
         } else {
             fsync(m_fd);
         }
+
+        // give back the space that was reserved but not used: the size of the
+        // file gives the size of the vector once reopened
+        const off_t    used_size = m_size.load() * sizeof(T);
+        struct stat    file_stat;
+        if (fstat(m_fd, &file_stat) == 0 && file_stat.st_size > used_size
+            && ftruncate(m_fd, used_size) != 0) {
+            sse::logger::logger()->warn(
+                "Unable to release the unused space of awonvm_vector. Error: {}",
+                strerror(errno));
+        }
     }
     m_is_committed = true;
 }
-- 
2.43.0


From 138a6d60a85bf2b6d50518dfb108644462dcf6df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:12 +0000
Subject: [PATCH 14/65] fix: awonvm_vector: data race on the warning flag of
 concurrent asynchronous accesses

---
 lib/include/sse/schemes/abstractio/awonvm_vector.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/include/sse/schemes/abstractio/awonvm_vector.hpp b/lib/include/sse/schemes/abstractio/awonvm_vector.hpp
index f048d8d..7e55cc5 100644
--- a/lib/include/sse/schemes/abstractio/awonvm_vector.hpp
+++ b/lib/include/sse/schemes/abstractio/awonvm_vector.hpp
@@ -96,7 +96,7 @@ private:
     std::atomic<bool> m_is_committed{false};
 
     std::unique_ptr<Scheduler> m_io_scheduler;
-    bool                       m_io_warn_flag{false};
+    std::atomic<bool>          m_io_warn_flag{false};
 };
 template<typename T, size_t ALIGNMENT>
 constexpr size_t awonvm_vector<T, ALIGNMENT>::kValueSize;
@@ -176,7 +176,7 @@ awonvm_vector<T, ALIGNMENT>::awonvm_vector(awonvm_vector&& vec) noexcept
       m_fd(vec.m_fd), m_device_page_size(vec.m_device_page_size),
       m_size(vec.m_size.load()), m_is_committed(vec.m_is_committed.load()),
       m_io_scheduler(std::move(vec.m_io_scheduler)),
-      m_io_warn_flag(vec.m_io_warn_flag)
+      m_io_warn_flag(vec.m_io_warn_flag.load())
 {
     vec.m_fd   = -1;
     vec.m_size = 0;
-- 
2.43.0


From 89d498f401c024b27c1edc3efbf82682c3b91e9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:12 +0000
Subject: [PATCH 15/65] fix: awonvm_vector: close the file when the scheduler
 cannot be created

---
 .../sse/schemes/abstractio/awonvm_vector.hpp  | 29 ++-----------------
 1 file changed, 3 insertions(+), 26 deletions(-)

diff --git a/lib/include/sse/schemes/abstractio/awonvm_vector.hpp b/lib/include/sse/schemes/abstractio/awonvm_vector.hpp
index 7e55cc5..803dd86 100644
--- a/lib/include/sse/schemes/abstractio/awonvm_vector.hpp
+++ b/lib/include/sse/schemes/abstractio/awonvm_vector.hpp
@@ -142,33 +142,10 @@ template<typename T, size_t ALIGNMENT>
 // false positive
 awonvm_vector<T, ALIGNMENT>::awonvm_vector(const std::string& path,
                                            bool               direct_io)
-    : m_filename(path), m_use_direct_io(direct_io),
-      m_fd(utility::open_fd(path, m_use_direct_io)),
-      m_device_page_size(Scheduler::async_io_page_size(m_fd)),
-      m_io_scheduler(make_default_aio_scheduler(m_device_page_size))
+    : awonvm_vector(path, nullptr, direct_io)
 {
-    off_t file_size = utility::file_size(m_fd);
-
-    if (m_device_page_size == 0) {
-        sse::logger::logger()->warn(
-            "Unable to read page size for file {}. Async IOs will "
-            "most likely be blocking.");
-    } else if (kValueSize % m_device_page_size != 0) {
-        sse::logger::logger()->warn("Device page size for file {} ({} "
-                                    "bytes) is not aligned with the "
-                                    "value size ({} bytes). Async IOs will "
-                                    "most likely be blocking.",
-                                    path,
-                                    m_device_page_size,
-                                    kValueSize);
-    }
-
-
-    if (file_size > 0) {
-        m_is_committed = true;
-
-        m_size.store(file_size / sizeof(T));
-    }
+    // the file descriptor is closed by the destructor if this throws
+    m_io_scheduler.reset(make_default_aio_scheduler(m_device_page_size));
 }
 template<typename T, size_t ALIGNMENT>
 awonvm_vector<T, ALIGNMENT>::awonvm_vector(awonvm_vector&& vec) noexcept
-- 
2.43.0


From 14c17f22e3ba53f27c385b45d7c015fdf0c01fb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:55 +0000
Subject: [PATCH 16/65] fix: awonvm_vector: asynchronous accesses for types
 aligned to less than a pointer

posix_memalign refuses such an alignment (the default one for arrays of bytes),
so that every asynchronous access failed.
---
 .../sse/schemes/abstractio/awonvm_vector.hpp     | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/lib/include/sse/schemes/abstractio/awonvm_vector.hpp b/lib/include/sse/schemes/abstractio/awonvm_vector.hpp
index 803dd86..e3f9fb4 100644
--- a/lib/include/sse/schemes/abstractio/awonvm_vector.hpp
+++ b/lib/include/sse/schemes/abstractio/awonvm_vector.hpp
@@ -83,6 +83,10 @@ public:
     void set_use_direct_access(bool flag);
 
 private:
+    // posix_memalign only supports multiples of the size of a pointer
+    static constexpr size_t kBufferAlignment
+        = (ALIGNMENT > sizeof(void*)) ? ALIGNMENT : sizeof(void*);
+
     static size_t async_io_page_size(int fd);
 
 
@@ -101,6 +105,9 @@ private:
 template<typename T, size_t ALIGNMENT>
 constexpr size_t awonvm_vector<T, ALIGNMENT>::kValueSize;
 
+template<typename T, size_t ALIGNMENT>
+constexpr size_t awonvm_vector<T, ALIGNMENT>::kBufferAlignment;
+
 template<typename T, size_t ALIGNMENT>
 // cppcheck-suppress uninitMemberVar
 // false positive
@@ -243,7 +250,8 @@ size_t awonvm_vector<T, ALIGNMENT>::async_push_back(const T& val)
     // we have to copy the data so it does not get destructed by the caller
     void* buf;
 
-    int ret = posix_memalign((&buf), ALIGNMENT, std::max(ALIGNMENT, sizeof(T)));
+    int ret = posix_memalign(
+        (&buf), kBufferAlignment, std::max(kBufferAlignment, sizeof(T)));
 
     if (ret != 0 || buf == nullptr) {
         throw std::runtime_error("Error when allocating aligned memory: errno "
@@ -383,8 +391,8 @@ void awonvm_vector<T, ALIGNMENT>::async_get(size_t            index,
     }
 
     void* buffer;
-    int   ret
-        = posix_memalign((&buffer), ALIGNMENT, std::max(ALIGNMENT, sizeof(T)));
+    int   ret = posix_memalign(
+        (&buffer), kBufferAlignment, std::max(kBufferAlignment, sizeof(T)));
 
     if (ret != 0 || buffer == nullptr) {
         throw std::runtime_error("Error when allocating aligned memory: errno "
@@ -449,7 +457,7 @@ void awonvm_vector<T, ALIGNMENT>::async_gets(
     for (const auto& req : requests) {
         void* buffer;
         int   ret = posix_memalign(
-            (&buffer), ALIGNMENT, std::max(ALIGNMENT, sizeof(T)));
+            (&buffer), kBufferAlignment, std::max(kBufferAlignment, sizeof(T)));
 
         if (ret != 0 || buffer == nullptr) {
             throw std::runtime_error(
-- 
2.43.0


From b9ea41e8595bd7edde8da85df9d4abca1ec6aa9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:51 +0000
Subject: [PATCH 17/65] fix: data race between the jobs of the parallel max
 flow on the source edges

---
 lib/tethys/tethys_graph.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/tethys/tethys_graph.cpp b/lib/tethys/tethys_graph.cpp
index 1fee707..4295fec 100644
--- a/lib/tethys/tethys_graph.cpp
+++ b/lib/tethys/tethys_graph.cpp
@@ -171,6 +171,12 @@ std::vector<EdgePtr> TethysGraph::find_source_sink_path(const size_t component,
 
         for (EdgePtr e_ptr : out_edges) {
             const Edge& e = edges[e_ptr];
+            // the flow of the source edges leading to the other components
+            // might be concurrently modified: it cannot be read here
+            if (v_ptr == kSourcePtr
+                && get_vertex(e.end).component != component) {
+                continue;
+            }
             if (e.flow > 0) {
                 const VertexPtr dest_ptr = e.end;
                 const Vertex&   dest     = get_vertex(dest_ptr);
-- 
2.43.0


From 4eaedc45a7cf4c5d669a3d4efc11aefe96fd146e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:51 +0000
Subject: [PATCH 18/65] fix: max flow after a call to
 compute_connected_components

Once the components are labelled, the sequential computation only considered the
isolated vertices, and so did the parallel one, whose second labelling found no
component.
---
 lib/tethys/tethys_graph.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/lib/tethys/tethys_graph.cpp b/lib/tethys/tethys_graph.cpp
index 4295fec..373ee56 100644
--- a/lib/tethys/tethys_graph.cpp
+++ b/lib/tethys/tethys_graph.cpp
@@ -333,6 +333,12 @@ void TethysGraph::compute_connected_components()
 {
     size_t component_index = 1;
     size_t max_size        = 1;
+
+    // forget the components of a previous call
+    for (Vertex& v : vertices) {
+        v.component = 0;
+    }
+
     for (size_t vi = 0; vi < vertices.size(); vi++) {
         VertexPtr vp(vi);
         if (vertices[vp].component != 0) {
@@ -411,6 +417,11 @@ void TethysGraph::compute_residual_maxflow()
             "Invalid inner state. State should be Building.");
     }
 
+    // treat the whole graph as a single component
+    for (Vertex& v : vertices) {
+        v.component = 0;
+    }
+
     size_t computed_capacity = 0;
     size_t it                = 0;
 
-- 
2.43.0


From d14ad9b419943761fe76cf5baff8a310231b75b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:41 +0000
Subject: [PATCH 19/65] fix: make the increments of RocksDBCounter atomic

---
 lib/include/sse/schemes/utils/rocksdb_wrapper.hpp |  3 +++
 lib/utils/rocksdb_wrapper.cpp                     | 12 +++++++++---
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/lib/include/sse/schemes/utils/rocksdb_wrapper.hpp b/lib/include/sse/schemes/utils/rocksdb_wrapper.hpp
index fcc99d4..3c56a42 100644
--- a/lib/include/sse/schemes/utils/rocksdb_wrapper.hpp
+++ b/lib/include/sse/schemes/utils/rocksdb_wrapper.hpp
@@ -31,6 +31,7 @@
 #include <iostream>
 #include <list>
 #include <memory>
+#include <mutex>
 
 namespace sse {
 namespace sophos {
@@ -279,6 +280,8 @@ public:
 
 private:
     rocksdb::DB* db_;
+    // makes the read-modify-write operations atomic
+    std::mutex mutex_;
 };
 
 
diff --git a/lib/utils/rocksdb_wrapper.cpp b/lib/utils/rocksdb_wrapper.cpp
index 8661718..8f38f37 100644
--- a/lib/utils/rocksdb_wrapper.cpp
+++ b/lib/utils/rocksdb_wrapper.cpp
@@ -100,7 +100,8 @@ bool RocksDBCounter::get(const std::string& key, uint32_t& val) const
 
 bool RocksDBCounter::get_and_increment(const std::string& key, uint32_t& val)
 {
-    std::string data;
+    std::lock_guard<std::mutex> lock(mutex_);
+    std::string                 data;
 
     rocksdb::Status s = db_->Get(rocksdb::ReadOptions(), key, &data);
 
@@ -133,8 +134,9 @@ bool RocksDBCounter::get_and_increment(const std::string& key, uint32_t& val)
 
 bool RocksDBCounter::increment(const std::string& key, uint32_t default_value)
 {
-    std::string data;
-    uint32_t    val;
+    std::lock_guard<std::mutex> lock(mutex_);
+    std::string                 data;
+    uint32_t                    val;
 
     rocksdb::Status s = db_->Get(rocksdb::ReadOptions(), key, &data);
 
@@ -165,6 +167,8 @@ bool RocksDBCounter::increment(const std::string& key, uint32_t default_value)
 
 bool RocksDBCounter::set(const std::string& key, uint32_t val)
 {
+    std::lock_guard<std::mutex> lock(mutex_);
+
     rocksdb::Slice k_v(reinterpret_cast<const char*>(&val), sizeof(uint32_t));
 
     rocksdb::Status s = db_->Put(rocksdb::WriteOptions(), key, k_v);
@@ -184,6 +188,8 @@ bool RocksDBCounter::set(const std::string& key, uint32_t val)
 
 bool RocksDBCounter::remove_key(const std::string& key)
 {
+    std::lock_guard<std::mutex> lock(mutex_);
+
     rocksdb::Status s = db_->Delete(rocksdb::WriteOptions(), key);
 
     return s.ok();
-- 
2.43.0


From 98d12fc897f15477186884a2b8a80ce68e3bdb97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:45 +0000
Subject: [PATCH 20/65] fix: do not reset a RocksDBCounter value that cannot be
 read

---
 lib/utils/rocksdb_wrapper.cpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/lib/utils/rocksdb_wrapper.cpp b/lib/utils/rocksdb_wrapper.cpp
index 8f38f37..11174e8 100644
--- a/lib/utils/rocksdb_wrapper.cpp
+++ b/lib/utils/rocksdb_wrapper.cpp
@@ -112,8 +112,14 @@ bool RocksDBCounter::get_and_increment(const std::string& key, uint32_t& val)
         ::memcpy(&val, data.data(), sizeof(uint32_t));
 
         val++;
-    } else {
+    } else if (s.IsNotFound()) {
         val = 0;
+    } else {
+        // do not reset a counter whose value cannot be read
+        logger::logger()->error("Unable to read the counter\nkey="
+                                + utility::hex_string(key)
+                                + "\nRocksdb status: " + s.ToString());
+        return false;
     }
 
     rocksdb::Slice k_v(reinterpret_cast<const char*>(&val), sizeof(uint32_t));
@@ -145,8 +151,14 @@ bool RocksDBCounter::increment(const std::string& key, uint32_t default_value)
         ::memcpy(&val, data.data(), sizeof(uint32_t));
 
         val++;
-    } else {
+    } else if (s.IsNotFound()) {
         val = default_value;
+    } else {
+        // do not reset a counter whose value cannot be read
+        logger::logger()->error("Unable to read the counter\nkey="
+                                + utility::hex_string(key)
+                                + "\nRocksdb status: " + s.ToString());
+        return false;
     }
 
     rocksdb::Slice k_v(reinterpret_cast<const char*>(&val), sizeof(uint32_t));
-- 
2.43.0


From 0e232810c5aba62305a16110edbf53244b32c4c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:02 +0000
Subject: [PATCH 21/65] fix: do not read past the end of a damaged stored value

---
 lib/include/sse/schemes/utils/rocksdb_wrapper.hpp | 14 ++++++++------
 lib/utils/rocksdb_wrapper.cpp                     | 11 ++++++-----
 2 files changed, 14 insertions(+), 11 deletions(-)

diff --git a/lib/include/sse/schemes/utils/rocksdb_wrapper.hpp b/lib/include/sse/schemes/utils/rocksdb_wrapper.hpp
index 3c56a42..cc8bbfa 100644
--- a/lib/include/sse/schemes/utils/rocksdb_wrapper.hpp
+++ b/lib/include/sse/schemes/utils/rocksdb_wrapper.hpp
@@ -155,11 +155,12 @@ bool RockDBWrapper::get(const std::array<uint8_t, N>& key, V& data) const
     rocksdb::Status s
         = db_->Get(rocksdb::ReadOptions(false, true), k_s, &value);
 
-    if (s.ok()) {
-        ::memcpy(&data, value.data(), sizeof(V));
+    if (!s.ok() || value.size() != sizeof(V)) {
+        return false;
     }
+    ::memcpy(&data, value.data(), sizeof(V));
 
-    return s.ok();
+    return true;
 }
 
 template<typename V>
@@ -173,11 +174,12 @@ bool RockDBWrapper::get(const uint8_t* key,
     rocksdb::Status s
         = db_->Get(rocksdb::ReadOptions(false, true), k_s, &value);
 
-    if (s.ok()) {
-        ::memcpy(&data, value.data(), sizeof(V));
+    if (!s.ok() || value.size() != sizeof(V)) {
+        return false;
     }
+    ::memcpy(&data, value.data(), sizeof(V));
 
-    return s.ok();
+    return true;
 }
 
 
diff --git a/lib/utils/rocksdb_wrapper.cpp b/lib/utils/rocksdb_wrapper.cpp
index 11174e8..b049718 100644
--- a/lib/utils/rocksdb_wrapper.cpp
+++ b/lib/utils/rocksdb_wrapper.cpp
@@ -91,11 +91,12 @@ bool RocksDBCounter::get(const std::string& key, uint32_t& val) const
     logger::logger()->debug("Get: " + utility::hex_string(key)
                             + "\nStatus: " + s.ToString());
 
-    if (s.ok()) {
-        ::memcpy(&val, data.data(), sizeof(uint32_t));
+    if (!s.ok() || data.size() != sizeof(uint32_t)) {
+        return false;
     }
+    ::memcpy(&val, data.data(), sizeof(uint32_t));
 
-    return s.ok();
+    return true;
 }
 
 bool RocksDBCounter::get_and_increment(const std::string& key, uint32_t& val)
@@ -108,7 +109,7 @@ bool RocksDBCounter::get_and_increment(const std::string& key, uint32_t& val)
     logger::logger()->debug("Get and increment: " + utility::hex_string(key)
                             + "\nStatus: " + s.ToString());
 
-    if (s.ok()) {
+    if (s.ok() && data.size() == sizeof(uint32_t)) {
         ::memcpy(&val, data.data(), sizeof(uint32_t));
 
         val++;
@@ -146,7 +147,7 @@ bool RocksDBCounter::increment(const std::string& key, uint32_t default_value)
 
     rocksdb::Status s = db_->Get(rocksdb::ReadOptions(), key, &data);
 
-    if (s.ok()) {
+    if (s.ok() && data.size() == sizeof(uint32_t)) {
         // the key has been found
         ::memcpy(&val, data.data(), sizeof(uint32_t));
 
-- 
2.43.0


From afeaa3ec53a34115056ea55a8d7a53ee503b5ce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:15 +0000
Subject: [PATCH 22/65] fix: keys of more than 255 bytes in the stores

---
 lib/include/sse/schemes/utils/rocksdb_wrapper.hpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/lib/include/sse/schemes/utils/rocksdb_wrapper.hpp b/lib/include/sse/schemes/utils/rocksdb_wrapper.hpp
index cc8bbfa..b96ba7e 100644
--- a/lib/include/sse/schemes/utils/rocksdb_wrapper.hpp
+++ b/lib/include/sse/schemes/utils/rocksdb_wrapper.hpp
@@ -49,7 +49,7 @@ public:
 
     template<typename V>
     inline bool get(const uint8_t* key,
-                    const uint8_t  key_length,
+                    const size_t   key_length,
                     V&             data) const;
 
     template<size_t N, typename V>
@@ -58,7 +58,7 @@ public:
     template<size_t N>
     inline bool remove(const std::array<uint8_t, N>& key);
 
-    inline bool remove(const uint8_t* key, const uint8_t key_length);
+    inline bool remove(const uint8_t* key, const size_t key_length);
 
     inline void flush(bool blocking = true);
 
@@ -165,7 +165,7 @@ bool RockDBWrapper::get(const std::array<uint8_t, N>& key, V& data) const
 
 template<typename V>
 bool RockDBWrapper::get(const uint8_t* key,
-                        const uint8_t  key_length,
+                        const size_t   key_length,
                         V&             data) const
 {
     rocksdb::Slice k_s(reinterpret_cast<const char*>(key), key_length);
@@ -213,7 +213,7 @@ bool RockDBWrapper::remove(const std::array<uint8_t, N>& key)
     return s.ok();
 }
 
-bool RockDBWrapper::remove(const uint8_t* key, const uint8_t key_length)
+bool RockDBWrapper::remove(const uint8_t* key, const size_t key_length)
 {
     rocksdb::Slice k_s(reinterpret_cast<const char*>(key), key_length);
 
@@ -331,11 +331,11 @@ public:
     }
 
     bool        get(const uint8_t* key,
-                    const uint8_t  key_length,
+                    const size_t   key_length,
                     std::list<T>&  data,
                     serializer&    deser) const;
     inline bool get(const uint8_t* key,
-                    const uint8_t  key_length,
+                    const size_t   key_length,
                     std::list<T>&  data) const
     {
         serializer deser = serializer();
@@ -447,7 +447,7 @@ bool RockDBListStore<T, Serializer>::get(const std::string& key,
 
 template<typename T, class Serializer>
 bool RockDBListStore<T, Serializer>::get(const uint8_t* key,
-                                         const uint8_t  key_length,
+                                         const size_t   key_length,
                                          std::list<T>&  data,
                                          serializer&    deser) const
 {
-- 
2.43.0


From ed69dd273323c21a148c4944197ed649f816f097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:40 +0000
Subject: [PATCH 23/65] fix: hex_string of an array truncated its elements to
 one byte

---
 lib/include/sse/schemes/utils/utils.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/include/sse/schemes/utils/utils.hpp b/lib/include/sse/schemes/utils/utils.hpp
index 2e86680..9784929 100644
--- a/lib/include/sse/schemes/utils/utils.hpp
+++ b/lib/include/sse/schemes/utils/utils.hpp
@@ -28,6 +28,7 @@
 #include <iomanip>
 #include <sstream>
 #include <string>
+#include <type_traits>
 
 namespace sse {
 namespace utility {
@@ -76,9 +77,10 @@ template<typename T, size_t N>
 std::string hex_string(const std::array<T, N>& in)
 {
     std::ostringstream out;
-    for (unsigned char c : in) {
+    for (T c : in) {
         out << std::hex << std::setw(2 * sizeof(T)) << std::setfill('0')
-            << static_cast<uint64_t>(c);
+            << static_cast<uint64_t>(
+                   static_cast<typename std::make_unsigned<T>::type>(c));
     }
     return out.str();
 }
-- 
2.43.0


From 0aa561c3f8ecd61276c99be18f425d8d180fd399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:44 +0000
Subject: [PATCH 24/65] fix: data race on the shared logger and its first use

---
 lib/utils/logger.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/lib/utils/logger.cpp b/lib/utils/logger.cpp
index 69813c8..163fe89 100644
--- a/lib/utils/logger.cpp
+++ b/lib/utils/logger.cpp
@@ -28,14 +28,19 @@
 #include <fstream>
 #include <iostream>
 #include <memory>
+#include <mutex>
 
 namespace sse {
 namespace logger {
 
 std::shared_ptr<spdlog::logger> shared_logger_(nullptr);
+// protects shared_logger_
+static std::mutex shared_logger_mutex_;
 
 std::shared_ptr<spdlog::logger> logger()
 {
+    std::lock_guard<std::mutex> lock(shared_logger_mutex_);
+
     if (!shared_logger_) {
         // initialize the logger
         shared_logger_ = spdlog::stderr_color_mt("console");
@@ -45,6 +50,8 @@ std::shared_ptr<spdlog::logger> logger()
 
 void set_logger(const std::shared_ptr<spdlog::logger>& logger)
 {
+    std::lock_guard<std::mutex> lock(shared_logger_mutex_);
+
     if (logger) {
         shared_logger_ = logger;
     } else {
-- 
2.43.0


From 21a81842432219071241a79bb994f9e316b63993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:05 +0000
Subject: [PATCH 25/65] fix: silencing the logger twice

---
 lib/utils/logger.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/lib/utils/logger.cpp b/lib/utils/logger.cpp
index 163fe89..5910e75 100644
--- a/lib/utils/logger.cpp
+++ b/lib/utils/logger.cpp
@@ -55,8 +55,11 @@ void set_logger(const std::shared_ptr<spdlog::logger>& logger)
     if (logger) {
         shared_logger_ = logger;
     } else {
-        shared_logger_
-            = spdlog::create<spdlog::sinks::null_sink_mt>("null_logger");
+        shared_logger_ = spdlog::get("null_logger");
+        if (!shared_logger_) {
+            shared_logger_
+                = spdlog::create<spdlog::sinks::null_sink_mt>("null_logger");
+        }
     }
 }
 
-- 
2.43.0


From 83fd7f7a03ffc027a10514618a32cb950d2143fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:31 +0000
Subject: [PATCH 26/65] fix: concatenation of containers the first of which is
 empty

---
 .../sse/schemes/utils/concat_iterator.hpp     | 40 ++++++++++++++-----
 1 file changed, 30 insertions(+), 10 deletions(-)

diff --git a/lib/include/sse/schemes/utils/concat_iterator.hpp b/lib/include/sse/schemes/utils/concat_iterator.hpp
index f95fd9d..a7ce111 100644
--- a/lib/include/sse/schemes/utils/concat_iterator.hpp
+++ b/lib/include/sse/schemes/utils/concat_iterator.hpp
@@ -20,10 +20,7 @@ public:
     concat_iterator& operator++()
     {
         ++internal_iterator;
-        if (!point_to_container_2 && internal_iterator == container_1->end()) {
-            internal_iterator    = container_2->begin();
-            point_to_container_2 = true;
-        }
+        skip_end_of_container_1();
         return *this;
     }
 
@@ -38,7 +35,8 @@ public:
     }
     bool operator==(const concat_iterator& other) const
     {
-        return internal_iterator == other.internal_iterator;
+        return point_to_container_2 == other.point_to_container_2
+               && internal_iterator == other.internal_iterator;
     }
     bool operator!=(const concat_iterator& other) const
     {
@@ -53,6 +51,7 @@ public:
         : container_1(&c1), container_2(&c2), internal_iterator(c1.begin()),
           point_to_container_2(false)
     {
+        skip_end_of_container_1();
     }
 
     concat_iterator(Container&         c1,
@@ -62,9 +61,20 @@ public:
         : container_1(&c1), container_2(&c2), internal_iterator(it),
           point_to_container_2(it_points_c2)
     {
+        skip_end_of_container_1();
     }
 
 private:
+    // the end of the first container (which might be empty) is the beginning of
+    // the second one
+    void skip_end_of_container_1()
+    {
+        if (!point_to_container_2 && internal_iterator == container_1->end()) {
+            internal_iterator    = container_2->begin();
+            point_to_container_2 = true;
+        }
+    }
+
     Container* container_1;
     Container* container_2;
 
@@ -93,10 +103,7 @@ public:
     concat_const_iterator& operator++()
     {
         ++internal_iterator;
-        if (!point_to_container_2 && internal_iterator == container_1->end()) {
-            internal_iterator    = container_2->begin();
-            point_to_container_2 = true;
-        }
+        skip_end_of_container_1();
         return *this;
     }
 
@@ -111,7 +118,8 @@ public:
     }
     bool operator==(const concat_const_iterator& other) const
     {
-        return internal_iterator == other.internal_iterator;
+        return point_to_container_2 == other.point_to_container_2
+               && internal_iterator == other.internal_iterator;
     }
     bool operator!=(const concat_const_iterator& other) const
     {
@@ -126,6 +134,7 @@ public:
         : container_1(&c1), container_2(&c2), internal_iterator(c1.begin()),
           point_to_container_2(false)
     {
+        skip_end_of_container_1();
     }
 
     concat_const_iterator(const Container&   c1,
@@ -135,9 +144,20 @@ public:
         : container_1(&c1), container_2(&c2), internal_iterator(it),
           point_to_container_2(it_points_c2)
     {
+        skip_end_of_container_1();
     }
 
 private:
+    // the end of the first container (which might be empty) is the beginning of
+    // the second one
+    void skip_end_of_container_1()
+    {
+        if (!point_to_container_2 && internal_iterator == container_1->end()) {
+            internal_iterator    = container_2->begin();
+            point_to_container_2 = true;
+        }
+    }
+
     const Container* container_1;
     const Container* container_2;
 
-- 
2.43.0


From 033bfdca6deb47286e3e1d3d3bb1a5ee38af84fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:37 +0000
Subject: [PATCH 27/65] fix: deserialize without a deserializer did not compile

---
 lib/include/sse/schemes/abstractio/kv_serializer.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/include/sse/schemes/abstractio/kv_serializer.hpp b/lib/include/sse/schemes/abstractio/kv_serializer.hpp
index 3941647..20a710e 100644
--- a/lib/include/sse/schemes/abstractio/kv_serializer.hpp
+++ b/lib/include/sse/schemes/abstractio/kv_serializer.hpp
@@ -87,8 +87,10 @@ template<class Key, class T, class InnerDeserializer>
 void deserialize(std::istream&                   input_stream,
                  std::function<void(Key k, T v)> callback)
 {
+    InnerDeserializer deserializer;
+
     deserialize<Key, T, InnerDeserializer>(
-        input_stream, callback, InnerDeserializer());
+        input_stream, callback, deserializer);
 }
 
 template<class Key, class T, class InnerDeserializer>
-- 
2.43.0


From 0f976b0cdd0886032c04ba3297313a0c2c966005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:38 +0000
Subject: [PATCH 28/65] fix: a stopped benchmark kept counting until its
 destruction

---
 lib/utils/logger.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/lib/utils/logger.cpp b/lib/utils/logger.cpp
index 5910e75..2ef710d 100644
--- a/lib/utils/logger.cpp
+++ b/lib/utils/logger.cpp
@@ -90,15 +90,17 @@ Benchmark::Benchmark(std::string format)
 void Benchmark::stop()
 {
     if (!stopped_) {
-        end_ = std::chrono::high_resolution_clock::now();
+        end_     = std::chrono::high_resolution_clock::now();
+        stopped_ = true;
     }
 }
 
 void Benchmark::stop(size_t count)
 {
     if (!stopped_) {
-        end_   = std::chrono::high_resolution_clock::now();
-        count_ = count;
+        end_     = std::chrono::high_resolution_clock::now();
+        count_   = count;
+        stopped_ = true;
     }
 }
 
-- 
2.43.0


From 7b4d5f852266948304060e3f228c3246a2cb54d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:36 +0000
Subject: [PATCH 29/65] fix: db_generator.hpp uses std::string without
 including it

---
 lib/include/sse/schemes/utils/db_generator.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/include/sse/schemes/utils/db_generator.hpp b/lib/include/sse/schemes/utils/db_generator.hpp
index 43ea343..2a7329e 100644
--- a/lib/include/sse/schemes/utils/db_generator.hpp
+++ b/lib/include/sse/schemes/utils/db_generator.hpp
@@ -22,6 +22,7 @@
 #pragma once
 
 #include <functional>
+#include <string>
 
 //#include "sophos_client_runner.hpp"
 
-- 
2.43.0


From fa8d279c7bae15dcb2e305e6c2f50ee9c08d0be1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:58 +0000
Subject: [PATCH 30/65] fix: an empty list hid the lists encoded after it in
 the bucket

---
 lib/include/sse/schemes/tethys/encoders/encode_separate.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/include/sse/schemes/tethys/encoders/encode_separate.hpp b/lib/include/sse/schemes/tethys/encoders/encode_separate.hpp
index 35237fa..f167f7c 100644
--- a/lib/include/sse/schemes/tethys/encoders/encode_separate.hpp
+++ b/lib/include/sse/schemes/tethys/encoders/encode_separate.hpp
@@ -78,6 +78,12 @@ struct EncodeSeparateEncoder
         // spilled control values
         encoded_list_size = std::min(encoded_list_size, original_list_size);
 
+        if (encoded_list_size == 0) {
+            // a zero length marks the end of the bucket: do not write it, the
+            // next lists would be hidden from the decoder
+            return 0;
+        }
+
         auto sublist_begin = values.begin();
         auto sublist_end   = values.end();
         // size_t sublist_begin = 0;
-- 
2.43.0


From 2e5c59fff9abda6e01ce2514833a5dec421ed0c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:03 +0000
Subject: [PATCH 31/65] fix: encoded lists were padded beyond their place and
 the padding was not skipped when decoding

---
 .../sse/schemes/tethys/encoders/encode_separate.hpp  | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/lib/include/sse/schemes/tethys/encoders/encode_separate.hpp b/lib/include/sse/schemes/tethys/encoders/encode_separate.hpp
index f167f7c..a687c4c 100644
--- a/lib/include/sse/schemes/tethys/encoders/encode_separate.hpp
+++ b/lib/include/sse/schemes/tethys/encoders/encode_separate.hpp
@@ -112,7 +112,7 @@ struct EncodeSeparateEncoder
         // fill with dummy bytes if needed
         if (offset < kListLengthEntriesNumber * sizeof(T)) {
             std::fill(buffer + offset,
-                      buffer + kAdditionalKeyEntriesPerList * sizeof(T),
+                      buffer + kListLengthEntriesNumber * sizeof(T),
                       0x11);
             offset = kListLengthEntriesNumber * sizeof(T); // offset = 8
         }
@@ -128,7 +128,11 @@ struct EncodeSeparateEncoder
         if (offset < (kAdditionalKeyEntriesPerList + kListLengthEntriesNumber)
                          * sizeof(T)) {
             std::fill(
-                buffer + offset, buffer + kListControlValues * sizeof(T), 0x22);
+                buffer + offset,
+                buffer
+                    + (kAdditionalKeyEntriesPerList + kListLengthEntriesNumber)
+                          * sizeof(T),
+                0x22);
             offset = (kAdditionalKeyEntriesPerList + kListLengthEntriesNumber)
                      * sizeof(T); // offset = 24
         }
@@ -291,7 +295,7 @@ struct EncodeSeparateDecoder
         while (offset < bucket.size()) {
             // read the length of the list
             memcpy(&list_length, bucket.data() + offset, sizeof(list_length));
-            offset += sizeof(list_length);
+            offset += kListLengthEntriesNumber * sizeof(T); // skip the padding
 
             if (list_length == 0) {
                 // we are at the end of the bucket
@@ -300,7 +304,7 @@ struct EncodeSeparateDecoder
 
             // read the key of the current list
             memcpy(&list_key, bucket.data() + offset, sizeof(list_key));
-            offset += sizeof(list_key);
+            offset += kAdditionalKeyEntriesPerList * sizeof(T);
 
             if (list_key == key) {
                 // match on the key
-- 
2.43.0


From ab3b5c1562eab81128ca8af62e358e6f8797f76c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:44 +0000
Subject: [PATCH 32/65] fix: a table declared for no element got no bucket at
 all

---
 lib/tethys/tethys_allocator.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/tethys/tethys_allocator.cpp b/lib/tethys/tethys_allocator.cpp
index 441b18e..2ac5fd7 100644
--- a/lib/tethys/tethys_allocator.cpp
+++ b/lib/tethys/tethys_allocator.cpp
@@ -12,6 +12,11 @@ size_t tethys_graph_size(size_t n_elements, size_t bucket_size, double epsilon)
 {
     size_t n_buckets
         = n_elements / bucket_size + ((n_elements % bucket_size == 0) ? 0 : 1);
+
+    if (n_buckets == 0) {
+        // even an empty table needs a bucket on each side of the graph
+        n_buckets = 1;
+    }
     return 2 * std::ceil((1. + epsilon) * n_buckets);
 };
 
-- 
2.43.0


From 6511eaf4d83349a1835ff38bb23e280a1df9a588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:49 +0000
Subject: [PATCH 33/65] fix: the callbacks of an asynchronous list lookup
 raced, and dereferenced a bucket that could not be read

---
 .../sse/schemes/tethys/tethys_store.hpp       | 50 ++++++++++++-------
 1 file changed, 33 insertions(+), 17 deletions(-)

diff --git a/lib/include/sse/schemes/tethys/tethys_store.hpp b/lib/include/sse/schemes/tethys/tethys_store.hpp
index 7858920..41293c5 100644
--- a/lib/include/sse/schemes/tethys/tethys_store.hpp
+++ b/lib/include/sse/schemes/tethys/tethys_store.hpp
@@ -8,8 +8,10 @@
 #include <cstdint>
 
 #include <array>
+#include <atomic>
 #include <fstream>
 #include <map>
+#include <memory>
 #include <string>
 #include <vector>
 
@@ -332,39 +334,53 @@ template<class CallbackState>
 void TethysStore<PAGE_SIZE, Key, T, TethysHasher, ValueDecoder>::
     async_get_list_helper(get_list_callback_type callback, CallbackState* state)
 {
-    auto bucket_cb = [this, callback, state](
+    // the state is shared by the callbacks of the two buckets, which can run
+    // concurrently
+    std::shared_ptr<CallbackState> shared_state(state);
+    const size_t                   half_graph_size = table_size / 2;
+
+    auto bucket_cb = [this, callback, shared_state, half_graph_size](
                          std::unique_ptr<payload_type> bucket, size_t index) {
-        uint8_t completed = state->completion_counter.fetch_add(1) + 1;
+        CallbackState* cb_state = shared_state.get();
+
+        // every callback has its own slot, filled before it is accounted for
+        if (index < half_graph_size) {
+            cb_state->index_0  = index;
+            cb_state->bucket_0 = std::move(bucket);
+        } else {
+            cb_state->index_1  = index;
+            cb_state->bucket_1 = std::move(bucket);
+        }
 
-        if (completed == 1) {
-            state->index_0  = index;
-            state->bucket_0 = std::move(bucket);
-        } else if (completed == 2) {
-            state->index_1  = index;
-            state->bucket_1 = std::move(bucket);
+        uint8_t completed = cb_state->completion_counter.fetch_add(1) + 1;
 
+        if (completed == 2) {
+            if (!cb_state->bucket_0 || !cb_state->bucket_1) {
+                std::cerr << "Error when reading the buckets of a list\n";
+                callback(std::vector<T>());
+                return;
+            }
 
             std::vector<T> stash_res;
 
-            auto stash_it = stash.find(state->key);
+            auto stash_it = stash.find(cb_state->key);
 
             if (stash_it != stash.end()) {
                 stash_res = stash_it->second;
             }
 
-            std::vector<T> bucket_res = this->decode_list(state->key,
-                                                          state->get_decoder(),
-                                                          *(state->bucket_0),
-                                                          state->index_0,
-                                                          *(state->bucket_1),
-                                                          state->index_1);
+            std::vector<T> bucket_res
+                = this->decode_list(cb_state->key,
+                                    cb_state->get_decoder(),
+                                    *(cb_state->bucket_0),
+                                    cb_state->index_0,
+                                    *(cb_state->bucket_1),
+                                    cb_state->index_1);
 
             bucket_res.reserve(bucket_res.size() + stash_res.size());
             bucket_res.insert(
                 bucket_res.end(), stash_res.begin(), stash_res.end());
 
-
-            delete state;
             callback(bucket_res);
         }
     };
-- 
2.43.0


From bc716de4058cec4d5b7b4118af9f4bac950fcef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:49 +0000
Subject: [PATCH 34/65] fix: lookups still running when a store was destroyed
 used its destroyed overflow map

---
 lib/include/sse/schemes/tethys/tethys_store.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/include/sse/schemes/tethys/tethys_store.hpp b/lib/include/sse/schemes/tethys/tethys_store.hpp
index 41293c5..9db14bc 100644
--- a/lib/include/sse/schemes/tethys/tethys_store.hpp
+++ b/lib/include/sse/schemes/tethys/tethys_store.hpp
@@ -109,10 +109,13 @@ private:
                                CallbackState*         state);
 
     using table_type = abstractio::awonvm_vector<payload_type, PAGE_SIZE>;
-    table_type table;
 
     size_t                        table_size;
     std::map<Key, std::vector<T>> stash;
+
+    // keep the table last: its destructor waits for the running lookups, which
+    // use the stash
+    table_type table;
 };
 
 template<size_t PAGE_SIZE,
-- 
2.43.0


From c1dc4eee6841ce8408a7fe86522a85eec50559f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:00 +0000
Subject: [PATCH 35/65] fix: a table built without overflow was looked up with
 the overflow file of an earlier one

---
 lib/include/sse/schemes/tethys/tethys_store_builder.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/include/sse/schemes/tethys/tethys_store_builder.hpp b/lib/include/sse/schemes/tethys/tethys_store_builder.hpp
index 077e00e..906a303 100644
--- a/lib/include/sse/schemes/tethys/tethys_store_builder.hpp
+++ b/lib/include/sse/schemes/tethys/tethys_store_builder.hpp
@@ -6,6 +6,8 @@
 #include <sse/schemes/tethys/core_types.hpp>
 #include <sse/schemes/tethys/details/tethys_allocator.hpp>
 
+#include <cstdio>
+
 #include <array>
 #include <fstream>
 #include <string>
@@ -301,6 +303,9 @@ void TethysStoreBuilder<PAGE_SIZE,
 
 
         stash_file.close();
+    } else {
+        // the file of a previous build would be taken for this table's stash
+        std::remove(params.tethys_stash_path.c_str());
     }
 
     encoder.finish_tethys_encoding();
-- 
2.43.0


From 4867c80b51baf6678a24998619ae39091943d0d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:00 +0000
Subject: [PATCH 36/65] fix: a failure to write the overflow file was ignored
 and its elements lost

---
 lib/include/sse/schemes/tethys/tethys_store_builder.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/include/sse/schemes/tethys/tethys_store_builder.hpp b/lib/include/sse/schemes/tethys/tethys_store_builder.hpp
index 906a303..e1162dd 100644
--- a/lib/include/sse/schemes/tethys/tethys_store_builder.hpp
+++ b/lib/include/sse/schemes/tethys/tethys_store_builder.hpp
@@ -303,6 +303,11 @@ void TethysStoreBuilder<PAGE_SIZE,
 
 
         stash_file.close();
+
+        if (!stash_file) {
+            throw std::runtime_error("Unable to write the stash in file "
+                                     + params.tethys_stash_path);
+        }
     } else {
         // the file of a previous build would be taken for this table's stash
         std::remove(params.tethys_stash_path.c_str());
-- 
2.43.0


From b6a7d4c57ccddb147e4147bfbda44cd2fb55ce16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:00 +0000
Subject: [PATCH 37/65] fix: reading a damaged overflow file allocated memory
 without bound and invented elements

---
 .../sse/schemes/tethys/encoders/encode_encrypt.hpp  | 13 ++++++++++++-
 .../sse/schemes/tethys/encoders/encode_separate.hpp | 13 ++++++++++++-
 2 files changed, 24 insertions(+), 2 deletions(-)

diff --git a/lib/include/sse/schemes/tethys/encoders/encode_encrypt.hpp b/lib/include/sse/schemes/tethys/encoders/encode_encrypt.hpp
index ef4e003..a1bba12 100644
--- a/lib/include/sse/schemes/tethys/encoders/encode_encrypt.hpp
+++ b/lib/include/sse/schemes/tethys/encoders/encode_encrypt.hpp
@@ -9,9 +9,11 @@
 #include <sodium/crypto_stream_chacha20.h>
 #include <sodium/utils.h>
 
+#include <algorithm>
 #include <array>
 #include <istream>
 #include <ostream>
+#include <stdexcept>
 
 namespace sse {
 namespace tethys {
@@ -207,11 +209,20 @@ public:
         // read the size of the vector
         in.read(reinterpret_cast<char*>(&v_size), sizeof(v_size));
 
-        v.reserve(v_size);
+        if (!in) {
+            throw std::runtime_error("Truncated key-value serialization");
+        }
+
+        // the size cannot be trusted: do not use it to allocate memory
+        v.reserve(std::min<uint64_t>(v_size, BLOCK_SIZE / sizeof(value_type)));
 
         for (size_t i = 0; i < v_size; i++) {
             value_type elt;
             in.read(reinterpret_cast<char*>(&elt), sizeof(elt));
+
+            if (!in) {
+                throw std::runtime_error("Truncated key-value serialization");
+            }
             v.push_back(elt);
         }
 
diff --git a/lib/include/sse/schemes/tethys/encoders/encode_separate.hpp b/lib/include/sse/schemes/tethys/encoders/encode_separate.hpp
index a687c4c..0552eb7 100644
--- a/lib/include/sse/schemes/tethys/encoders/encode_separate.hpp
+++ b/lib/include/sse/schemes/tethys/encoders/encode_separate.hpp
@@ -5,9 +5,11 @@
 #include <cassert>
 #include <cstring>
 
+#include <algorithm>
 #include <array>
 #include <istream>
 #include <ostream>
+#include <stdexcept>
 
 namespace sse {
 namespace tethys {
@@ -350,11 +352,20 @@ struct EncodeSeparateDecoder
         // read the size of the vector
         in.read(reinterpret_cast<char*>(&v_size), sizeof(v_size));
 
-        v.reserve(v_size);
+        if (!in) {
+            throw std::runtime_error("Truncated key-value serialization");
+        }
+
+        // the size cannot be trusted: do not use it to allocate memory
+        v.reserve(std::min<uint64_t>(v_size, PAGESIZE / sizeof(T)));
 
         for (size_t i = 0; i < v_size; i++) {
             T elt;
             in.read(reinterpret_cast<char*>(&elt), sizeof(elt));
+
+            if (!in) {
+                throw std::runtime_error("Truncated key-value serialization");
+            }
             v.push_back(elt);
         }
 
-- 
2.43.0


From 50001f0dac813e421119699b5107e89cdbe12a77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:03 +0000
Subject: [PATCH 38/65] fix: decoding a bucket with garbage lengths read
 outside of it

---
 .../sse/schemes/tethys/encoders/encode_separate.hpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/lib/include/sse/schemes/tethys/encoders/encode_separate.hpp b/lib/include/sse/schemes/tethys/encoders/encode_separate.hpp
index 0552eb7..bee4b1b 100644
--- a/lib/include/sse/schemes/tethys/encoders/encode_separate.hpp
+++ b/lib/include/sse/schemes/tethys/encoders/encode_separate.hpp
@@ -294,7 +294,13 @@ struct EncodeSeparateDecoder
         Key      list_key;
         uint64_t list_length;
 
-        while (offset < bucket.size()) {
+        constexpr size_t kHeaderSize
+            = (kListLengthEntriesNumber + kAdditionalKeyEntriesPerList)
+              * sizeof(T);
+
+        // the bucket's content might be garbage (e.g. when it comes from a
+        // server): never trust the lengths it contains
+        while (bucket.size() - offset >= kHeaderSize) {
             // read the length of the list
             memcpy(&list_length, bucket.data() + offset, sizeof(list_length));
             offset += kListLengthEntriesNumber * sizeof(T); // skip the padding
@@ -308,6 +314,11 @@ struct EncodeSeparateDecoder
             memcpy(&list_key, bucket.data() + offset, sizeof(list_key));
             offset += kAdditionalKeyEntriesPerList * sizeof(T);
 
+            if (list_length > (bucket.size() - offset) / sizeof(T)) {
+                // not a valid encoding
+                break;
+            }
+
             if (list_key == key) {
                 // match on the key
                 results.reserve(results.size() + list_length);
-- 
2.43.0


From 7b21dee013276f14462afcc40c6ef3f3a9770d72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:27 +0000
Subject: [PATCH 39/65] fix: a cuckoo table declared for no element had no slot
 (division by zero, unreadable file)

---
 lib/include/sse/schemes/oceanus/details/cuckoo.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/include/sse/schemes/oceanus/details/cuckoo.hpp b/lib/include/sse/schemes/oceanus/details/cuckoo.hpp
index 3e9eedd..6fd6e3e 100644
--- a/lib/include/sse/schemes/oceanus/details/cuckoo.hpp
+++ b/lib/include/sse/schemes/oceanus/details/cuckoo.hpp
@@ -14,7 +14,11 @@ namespace details {
 
 inline size_t cuckoo_table_size(size_t n_elements, double epsilon)
 {
-    return std::ceil((1. + epsilon / 2.) * n_elements);
+    const size_t size = std::ceil((1. + epsilon / 2.) * n_elements);
+
+    // even an empty table needs a slot: the locations are computed modulo the
+    // size
+    return (size == 0) ? 1 : size;
 };
 
 template<size_t PAYLOAD_SIZE, size_t KEY_SIZE>
-- 
2.43.0


From 6f493ef7e24e62d1864d16ffa42c7d129b0d3156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:27 +0000
Subject: [PATCH 40/65] fix: the cuckoo builder silently lost an element when
 an insertion failed

---
 lib/include/sse/schemes/oceanus/cuckoo.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/include/sse/schemes/oceanus/cuckoo.hpp b/lib/include/sse/schemes/oceanus/cuckoo.hpp
index 11841d3..56f6595 100644
--- a/lib/include/sse/schemes/oceanus/cuckoo.hpp
+++ b/lib/include/sse/schemes/oceanus/cuckoo.hpp
@@ -174,6 +174,10 @@ void CuckooBuilder<PAGE_SIZE,
     if (!details::CuckooAllocator::is_empty_placeholder(spill)) {
         std::cerr << "Spill!\n";
         spilled_data.push_back(spill);
+
+        // do not lose an element silently
+        throw std::runtime_error(
+            "Cuckoo insertion failure: no place was found for an element");
     }
 }
 
-- 
2.43.0


From ab37aad914cef35cde484d35dfde563617bb3558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:27 +0000
Subject: [PATCH 41/65] fix: a moved-from cuckoo builder was committed by its
 destructor

---
 lib/include/sse/schemes/oceanus/cuckoo.hpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/lib/include/sse/schemes/oceanus/cuckoo.hpp b/lib/include/sse/schemes/oceanus/cuckoo.hpp
index 56f6595..6630d5c 100644
--- a/lib/include/sse/schemes/oceanus/cuckoo.hpp
+++ b/lib/include/sse/schemes/oceanus/cuckoo.hpp
@@ -48,7 +48,15 @@ public:
     using param_type   = CuckooBuilderParam;
 
     explicit CuckooBuilder(CuckooBuilderParam p);
-    CuckooBuilder(CuckooBuilder&&) noexcept = default;
+    CuckooBuilder(CuckooBuilder&& other) noexcept
+        : params(std::move(other.params)),
+          allocator(std::move(other.allocator)), data(std::move(other.data)),
+          spilled_data(std::move(other.spilled_data)),
+          n_elements(other.n_elements), is_committed(other.is_committed)
+    {
+        // the table is not other's to commit anymore
+        other.is_committed = true;
+    }
 
     ~CuckooBuilder();
 
-- 
2.43.0


From 31d0ddcdefbcb83826fc067978ff0760e5e78ad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:27 +0000
Subject: [PATCH 42/65] fix: a refused asynchronous cuckoo lookup leaked its
 state

---
 lib/include/sse/schemes/oceanus/cuckoo.hpp | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/lib/include/sse/schemes/oceanus/cuckoo.hpp b/lib/include/sse/schemes/oceanus/cuckoo.hpp
index 6630d5c..bbf8b40 100644
--- a/lib/include/sse/schemes/oceanus/cuckoo.hpp
+++ b/lib/include/sse/schemes/oceanus/cuckoo.hpp
@@ -8,6 +8,8 @@
 
 #include <cmath>
 
+#include <atomic>
+#include <memory>
 #include <vector>
 
 namespace sse {
@@ -408,7 +410,8 @@ void CuckooHashTable<PAGE_SIZE,
     std::array<uint8_t, kKeySize> ser_key;
     KeySerializer().serialize(key, ser_key.data());
 
-    CallBackState* state = new CallBackState();
+    // owned by the two callbacks, including when they are never submitted
+    auto state = std::make_shared<CallBackState>();
 
     auto inner_callback =
         [state, ser_key, callback](std::unique_ptr<payload_type> read_value) {
@@ -426,11 +429,9 @@ void CuckooHashTable<PAGE_SIZE,
             uint8_t completed = state->completion_counter.fetch_add(1);
 
             if (completed == 1) {
-                // We can use the caller callback, and delete the state
-                // Be careful though: we want to destruct the state before
-                // calling the callback, while still having a pointer to the
-                // retrieved data
-                // So we first need to move the smart pointer.
+                // We can use the caller callback
+                // We first need to move the smart pointer to the retrieved
+                // data.
 
                 // Also, why putting the retrieved data in the state and not
                 // in the local callback state? Think about when none of the
@@ -444,8 +445,6 @@ void CuckooHashTable<PAGE_SIZE,
 
                 std::unique_ptr<payload_type> data = std::move(state->result);
 
-                delete state;
-
                 if (data) {
                     callback(
                         ValueSerializer().deserialize(data->data() + kKeySize));
-- 
2.43.0


From e7239102cd5fb6619314d57b1fd7fa2129225045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:27 +0000
Subject: [PATCH 43/65] fix: the key made of ones matched the empty slots of a
 cuckoo table

---
 lib/include/sse/schemes/oceanus/cuckoo.hpp    | 20 +++++++++++++++++--
 .../sse/schemes/oceanus/details/cuckoo.hpp    | 13 ++++++++++++
 2 files changed, 31 insertions(+), 2 deletions(-)

diff --git a/lib/include/sse/schemes/oceanus/cuckoo.hpp b/lib/include/sse/schemes/oceanus/cuckoo.hpp
index bbf8b40..241b9bc 100644
--- a/lib/include/sse/schemes/oceanus/cuckoo.hpp
+++ b/lib/include/sse/schemes/oceanus/cuckoo.hpp
@@ -172,7 +172,15 @@ void CuckooBuilder<PAGE_SIZE,
     ValueSerializer value_serializer;
     CuckooHasher    hasher;
 
-    key_serializer.serialize(key, payload.data());
+    std::array<uint8_t, kKeySize> ser_key;
+    key_serializer.serialize(key, ser_key.data());
+
+    if (details::is_empty_key(ser_key)) {
+        throw std::invalid_argument(
+            "Invalid key: its serialization is the one of an empty slot");
+    }
+
+    std::copy(ser_key.begin(), ser_key.end(), payload.begin());
     value_serializer.serialize(val, payload.data() + kKeySize);
 
     size_t value_ptr = data.push_back(payload);
@@ -365,6 +373,11 @@ T CuckooHashTable<PAGE_SIZE,
     std::array<uint8_t, kKeySize> ser_key;
     KeySerializer().serialize(key, ser_key.data());
 
+    if (details::is_empty_key(ser_key)) {
+        // do not match the empty slots
+        throw std::out_of_range("Key not found");
+    }
+
     payload_type val_0 = table.get(loc);
     if (details::match_key<PAGE_SIZE>(val_0, ser_key)) {
         return ValueSerializer().deserialize(val_0.data() + kKeySize);
@@ -417,7 +430,10 @@ void CuckooHashTable<PAGE_SIZE,
         [state, ser_key, callback](std::unique_ptr<payload_type> read_value) {
             if (read_value) {
                 // check whether we are a match on the key
-                if (details::match_key<PAGE_SIZE>(*read_value.get(), ser_key)) {
+                // (and do not match the empty slots)
+                if (!details::is_empty_key(ser_key)
+                    && details::match_key<PAGE_SIZE>(*read_value.get(),
+                                                     ser_key)) {
                     // only one of the two callback should access this
                     // section
                     // no need for a mutex
diff --git a/lib/include/sse/schemes/oceanus/details/cuckoo.hpp b/lib/include/sse/schemes/oceanus/details/cuckoo.hpp
index 6fd6e3e..a35af15 100644
--- a/lib/include/sse/schemes/oceanus/details/cuckoo.hpp
+++ b/lib/include/sse/schemes/oceanus/details/cuckoo.hpp
@@ -35,6 +35,19 @@ bool match_key(const std::array<uint8_t, PAYLOAD_SIZE>& pl,
     return true;
 }
 
+// the empty slots of the table are filled with ones: such a key cannot be told
+// from an empty slot
+template<size_t KEY_SIZE>
+bool is_empty_key(const std::array<uint8_t, KEY_SIZE>& key)
+{
+    for (uint8_t byte : key) {
+        if (byte != 0xFF) {
+            return false;
+        }
+    }
+    return true;
+}
+
 class CuckooAllocator
 {
 public:
-- 
2.43.0


From 6c6033879fe65d611a11aab0e8f248395dc7bb07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:00 +0000
Subject: [PATCH 44/65] fix: building an empty Pluto index inserted dummy
 blocks without end

---
 lib/include/sse/schemes/pluto/pluto_builder.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/include/sse/schemes/pluto/pluto_builder.hpp b/lib/include/sse/schemes/pluto/pluto_builder.hpp
index 4475dce..96fdb11 100644
--- a/lib/include/sse/schemes/pluto/pluto_builder.hpp
+++ b/lib/include/sse/schemes/pluto/pluto_builder.hpp
@@ -92,7 +92,9 @@ void PlutoBuilder<Params>::build()
     // for the security of the scheme, because we do not want to leak the
     // number of full blocks, we have to insert a dummy block in the hash
     // table
-    const size_t n_full_blocks = 1 + ((n_elts - 1) / Params::kPlutoListLength);
+    const size_t n_full_blocks = (n_elts == 0)
+                                     ? 0
+                                     : 1 + ((n_elts - 1) / Params::kPlutoListLength);
 
     typename Params::ht_value_type v = {0x00};
 
-- 
2.43.0


From 2f0d6195850449e5538f6055819d96fcbf78a2ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:00 +0000
Subject: [PATCH 45/65] fix: Pluto searches returned the padding of the full
 blocks as documents

---
 lib/include/sse/schemes/pluto/pluto_server.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/lib/include/sse/schemes/pluto/pluto_server.hpp b/lib/include/sse/schemes/pluto/pluto_server.hpp
index ac69fe1..bbbdbd4 100644
--- a/lib/include/sse/schemes/pluto/pluto_server.hpp
+++ b/lib/include/sse/schemes/pluto/pluto_server.hpp
@@ -60,9 +60,12 @@ auto PlutoServer<Params>::search(const SearchRequest& search_request)
         try {
             typename Params::ht_value_type v = hash_table.get(key);
 
-            res.complete_lists.reserve(res.complete_lists.size() + v.size());
-            res.complete_lists.insert(
-                res.complete_lists.end(), v.begin(), v.end());
+            // a value can be larger than a block: what follows is padding
+            res.complete_lists.reserve(res.complete_lists.size()
+                                       + Params::kPlutoListLength);
+            res.complete_lists.insert(res.complete_lists.end(),
+                                      v.begin(),
+                                      v.begin() + Params::kPlutoListLength);
         } catch (const std::out_of_range& e) {
             break;
         }
-- 
2.43.0


From 7966969ce882e1d03f62277bf50d0a72df0f76f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:44 +0000
Subject: [PATCH 46/65] fix: RocksDB cuckoo tables of Pluto could not be read,
 so that the index was not flushed nor opened again

---
 lib/pluto/rocksdb_store.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/pluto/rocksdb_store.cpp b/lib/pluto/rocksdb_store.cpp
index 9694fe2..9eaec8f 100644
--- a/lib/pluto/rocksdb_store.cpp
+++ b/lib/pluto/rocksdb_store.cpp
@@ -28,7 +28,8 @@ rocksdb::Options GenericRocksDBStoreParams::make_rocksdb_cuckoo_options()
     options.compaction_style = rocksdb::kCompactionStyleLevel;
     options.info_log_level   = rocksdb::InfoLogLevel::INFO_LEVEL;
 
-    // options.allow_mmap_reads                       = true;
+    // cuckoo tables can only be read from mapped files
+    options.allow_mmap_reads = true;
 
     options.allow_concurrent_memtable_write
         = options.memtable_factory->IsInsertConcurrentlySupported();
-- 
2.43.0


From 7c8b659f42adb4f7d610380fa9f667c0cb79809d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:44 +0000
Subject: [PATCH 47/65] fix: a failed commit of Pluto's RocksDB store was only
 logged

---
 lib/pluto/rocksdb_store.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/pluto/rocksdb_store.cpp b/lib/pluto/rocksdb_store.cpp
index 9eaec8f..dde78b8 100644
--- a/lib/pluto/rocksdb_store.cpp
+++ b/lib/pluto/rocksdb_store.cpp
@@ -110,6 +110,7 @@ void GenericRocksDBStore::commit()
     /* LCOV_EXCL_START */
     if (!s.ok()) {
         logger::logger()->error("DB Flush failed: " + s.ToString());
+        throw std::runtime_error("DB Flush failed: " + s.ToString());
     }
     /* LCOV_EXCL_STOP */
 }
-- 
2.43.0


From dbe039b37fa0db0c5d500ecdd01f6986d217c2df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:06 +0000
Subject: [PATCH 48/65] fix: reading a damaged Pluto block overran it, and a
 failed read passed for an absent block

---
 lib/include/sse/schemes/pluto/rocksdb_store.hpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/lib/include/sse/schemes/pluto/rocksdb_store.hpp b/lib/include/sse/schemes/pluto/rocksdb_store.hpp
index df9a861..3b37aef 100644
--- a/lib/include/sse/schemes/pluto/rocksdb_store.hpp
+++ b/lib/include/sse/schemes/pluto/rocksdb_store.hpp
@@ -74,11 +74,17 @@ std::array<index_type, N> GenericRocksDBStore::get(
 
     std::array<index_type, N> content;
 
-    if (s.ok()) {
-        ::memcpy(content.data(), value.data(), N * sizeof(index_type));
-    } else {
+    if (s.IsNotFound()) {
         throw std::out_of_range("Key not found");
     }
+    if (!s.ok()) {
+        throw std::runtime_error("Unable to read the database: "
+                                 + s.ToString());
+    }
+    if (value.size() != N * sizeof(index_type)) {
+        throw std::runtime_error("Invalid length of a stored block");
+    }
+    ::memcpy(content.data(), value.data(), N * sizeof(index_type));
 
     return content;
 }
-- 
2.43.0


From 515cf8bb04611f21838f1c1873fd071c6f73052f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:56 +0000
Subject: [PATCH 49/65] fix: looking up a truncated Tethys or cuckoo table
 divided by zero

---
 lib/include/sse/schemes/oceanus/cuckoo.hpp      | 2 +-
 lib/include/sse/schemes/tethys/tethys_store.hpp | 8 ++++++++
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/lib/include/sse/schemes/oceanus/cuckoo.hpp b/lib/include/sse/schemes/oceanus/cuckoo.hpp
index 241b9bc..c3d3162 100644
--- a/lib/include/sse/schemes/oceanus/cuckoo.hpp
+++ b/lib/include/sse/schemes/oceanus/cuckoo.hpp
@@ -342,7 +342,7 @@ CuckooHashTable<PAGE_SIZE,
 
     table_size = table.size();
 
-    if (table_size % 2 != 0) {
+    if (table_size == 0 || table_size % 2 != 0) {
         throw std::runtime_error("Invalid Cuckoo table size");
     }
     table_size /= 2;
diff --git a/lib/include/sse/schemes/tethys/tethys_store.hpp b/lib/include/sse/schemes/tethys/tethys_store.hpp
index 9db14bc..36af994 100644
--- a/lib/include/sse/schemes/tethys/tethys_store.hpp
+++ b/lib/include/sse/schemes/tethys/tethys_store.hpp
@@ -59,6 +59,10 @@ public:
         }
         table_size = table.size();
 
+    if (table_size < 2) {
+        throw std::runtime_error("Invalid Tethys table size");
+    }
+
         load_stash(stash_path, stash_decoder);
 
         std::cerr << "Tethys storage initialization succeeded!\n";
@@ -133,6 +137,10 @@ TethysStore<PAGE_SIZE, Key, T, TethysHasher, ValueDecoder>::TethysStore(
     }
     table_size = table.size();
 
+    if (table_size < 2) {
+        throw std::runtime_error("Invalid Tethys table size");
+    }
+
     ValueDecoder stash_decoder;
 
     load_stash(stash_path, stash_decoder);
-- 
2.43.0


From 07f9038f1aae5f3658c02c5657c9306b9e245e62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:09 +0000
Subject: [PATCH 50/65] fix: the Sophos search request of an unknown keyword
 sent uninitialised memory

---
 lib/sophos/sophos_client.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/sophos/sophos_client.cpp b/lib/sophos/sophos_client.cpp
index 425b876..3e52f77 100644
--- a/lib/sophos/sophos_client.cpp
+++ b/lib/sophos/sophos_client.cpp
@@ -84,7 +84,7 @@ SearchRequest SophosClient::search_request(const std::string& keyword) const
 {
     uint32_t      kw_counter;
     bool          found;
-    SearchRequest req;
+    SearchRequest req{}; // the token is sent even if there is nothing to find
     req.add_count = 0;
 
     std::string seed = get_keyword_index(keyword);
-- 
2.43.0


From 85130af04a73b3c28714d4d1ef9b7af8d41b961c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:10 +0000
Subject: [PATCH 51/65] fix: parallel Sophos searches evaluated the permutation
 for tokens they do not need, even on an absent token, and terminated when
 that failed

---
 lib/sophos/sophos_server.cpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/lib/sophos/sophos_server.cpp b/lib/sophos/sophos_server.cpp
index 832df6d..e868e29 100644
--- a/lib/sophos/sophos_server.cpp
+++ b/lib/sophos/sophos_server.cpp
@@ -181,6 +181,10 @@ std::list<index_type> SophosServer::search_parallel(SearchRequest& req,
     // order i + kN up to max
     auto rsa_job = [this, &st, &access_job, &access_pool](
                        const uint8_t index, const size_t max, const uint8_t N) {
+        if (index >= max) {
+            return; // no token to derive for this thread
+        }
+
         search_token_type local_st = st;
         if (index != 0) {
             local_st = public_tdp_.eval(local_st, index);
@@ -274,6 +278,10 @@ std::list<index_type> SophosServer::search_parallel_light(SearchRequest& req,
     // order i + kN up to max
     auto job = [this, &st, &derive_access](
                    const uint8_t index, const size_t max, const uint8_t N) {
+        if (index >= max) {
+            return; // no token to derive for this thread
+        }
+
         search_token_type local_st = st;
         if (index != 0) {
             local_st = public_tdp_.eval(local_st, index);
@@ -364,6 +372,10 @@ void SophosServer::search_parallel_callback(
     // order i + kN up to max
     auto rsa_job = [this, &st, &access_job, &access_pool](
                        const uint8_t index, const size_t max, const uint8_t N) {
+        if (index >= max) {
+            return; // no token to derive for this thread
+        }
+
         search_token_type local_st = st;
         if (index != 0) {
             local_st = public_tdp_.eval(local_st, index);
@@ -448,6 +460,10 @@ void SophosServer::search_parallel_light_callback(
     // order i + kN up to max
     auto job = [this, &st, &derive_access](
                    const uint8_t index, const size_t max, const uint8_t N) {
+        if (index >= max) {
+            return; // no token to derive for this thread
+        }
+
         search_token_type local_st = st;
         if (index != 0) {
             local_st = public_tdp_.eval(local_st, index);
-- 
2.43.0


From 3cb64f9319dcba43d7e65fc65a8f2004c7809b49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:10 +0000
Subject: [PATCH 52/65] fix: a Sophos search over more threads than the TDP
 pool has orders terminated; pool size overflow on large machines

---
 .../sse/schemes/sophos/sophos_server.hpp      |  2 ++
 lib/sophos/sophos_server.cpp                  | 25 ++++++++++++++++---
 2 files changed, 23 insertions(+), 4 deletions(-)

diff --git a/lib/include/sse/schemes/sophos/sophos_server.hpp b/lib/include/sse/schemes/sophos/sophos_server.hpp
index 4ae058c..463359d 100644
--- a/lib/include/sse/schemes/sophos/sophos_server.hpp
+++ b/lib/include/sse/schemes/sophos/sophos_server.hpp
@@ -67,6 +67,8 @@ public:
 private:
     RockDBWrapper edb_;
 
+    const uint8_t tdp_pool_size_;
+
     sse::crypto::TdpMultPool public_tdp_;
 };
 
diff --git a/lib/sophos/sophos_server.cpp b/lib/sophos/sophos_server.cpp
index e868e29..1eb5732 100644
--- a/lib/sophos/sophos_server.cpp
+++ b/lib/sophos/sophos_server.cpp
@@ -26,15 +26,28 @@
 
 #include <algorithm>
 #include <iostream>
+#include <limits>
 
 namespace sse {
 namespace sophos {
 
 
+// the highest order of the TDP pool: a search cannot be split over more threads
+static uint8_t tdp_pool_size()
+{
+    constexpr unsigned kMaxPoolSize = std::numeric_limits<uint8_t>::max();
+    // at least two threads make the RSA computations
+    const unsigned n_threads
+        = std::max<unsigned>(std::thread::hardware_concurrency(), 1);
+
+    return static_cast<uint8_t>(
+        std::min<unsigned>(2 * n_threads, kMaxPoolSize));
+}
+
 SophosServer::SophosServer(const std::string& db_path,
                            const std::string& tdp_pk)
-    : edb_(db_path),
-      public_tdp_(tdp_pk, 2 * std::thread::hardware_concurrency())
+    : edb_(db_path), tdp_pool_size_(tdp_pool_size()),
+      public_tdp_(tdp_pk, tdp_pool_size_)
 {
 }
 
@@ -210,8 +223,9 @@ std::list<index_type> SophosServer::search_parallel(SearchRequest& req,
     std::vector<std::thread> rsa_threads;
 
     // use at least two threads to make the RSA computations
-    unsigned n_rsa_threads
-        = std::max<unsigned>(std::thread::hardware_concurrency(), 2);
+    unsigned n_rsa_threads = std::min<unsigned>(
+        std::max<unsigned>(std::thread::hardware_concurrency(), 2),
+        tdp_pool_size_);
 
     for (unsigned t = 0; t < n_rsa_threads; t++) {
         rsa_threads.emplace_back(rsa_job, t, req.add_count, n_rsa_threads);
@@ -305,6 +319,7 @@ std::list<index_type> SophosServer::search_parallel_light(SearchRequest& req,
 
     //    unsigned n_threads =
     //    std::thread::hardware_concurrency()-access_threads;
+    thread_count = std::min(thread_count, tdp_pool_size_);
 
     for (uint8_t t = 0; t < thread_count; t++) {
         rsa_threads.emplace_back(job, t, req.add_count, thread_count);
@@ -398,6 +413,7 @@ void SophosServer::search_parallel_callback(
 
     //    unsigned n_threads =
     //    std::thread::hardware_concurrency()-access_threads;
+    rsa_thread_count = std::min(rsa_thread_count, tdp_pool_size_);
 
     for (uint8_t t = 0; t < rsa_thread_count; t++) {
         rsa_threads.emplace_back(rsa_job, t, req.add_count, rsa_thread_count);
@@ -487,6 +503,7 @@ void SophosServer::search_parallel_light_callback(
 
     //    unsigned n_threads =
     //    std::thread::hardware_concurrency()-access_threads;
+    thread_count = std::min(thread_count, tdp_pool_size_);
 
     for (uint8_t t = 0; t < thread_count; t++) {
         rsa_threads.emplace_back(job, t, req.add_count, thread_count);
-- 
2.43.0


From 59c8f7aedce0bf75e7a6db5aaf4960878f5207ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:36 +0000
Subject: [PATCH 53/65] fix: Diana's match count was one less than the number
 of insertions, so that Janus used a puncture index twice

---
 lib/include/sse/schemes/diana/diana_client.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/include/sse/schemes/diana/diana_client.hpp b/lib/include/sse/schemes/diana/diana_client.hpp
index ec3d036..ba06146 100644
--- a/lib/include/sse/schemes/diana/diana_client.hpp
+++ b/lib/include/sse/schemes/diana/diana_client.hpp
@@ -126,7 +126,8 @@ uint32_t DianaClient<T>::get_match_count(const std::string& kw) const
 
     bool found = counter_map_.get(kw, kw_counter);
 
-    return (found) ? kw_counter : 0;
+    // the counter is the index of the last inserted entry
+    return (found) ? (kw_counter + 1) : 0;
 }
 
 template<typename T>
-- 
2.43.0


From 55f97ac5fb5b514f5c0257b2d8c358b710d7f0f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:49 +0000
Subject: [PATCH 54/65] fix: Diana's parallel search into a vector returned
 made-up entries for deleted ones, and leftovers of a larger vector

---
 .../sse/schemes/diana/diana_server.hpp        | 21 +++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/lib/include/sse/schemes/diana/diana_server.hpp b/lib/include/sse/schemes/diana/diana_server.hpp
index 0fd4f7e..ce4fb80 100644
--- a/lib/include/sse/schemes/diana/diana_server.hpp
+++ b/lib/include/sse/schemes/diana/diana_server.hpp
@@ -223,20 +223,29 @@ void DianaServer<T>::search_parallel(const SearchRequest&     req,
                                      std::vector<index_type>& results,
                                      bool                     delete_results)
 {
-    if (results.size() < req.add_count) {
-        // resize the vector if needed
-        results.resize(req.add_count);
-    }
+    results.resize(req.add_count);
 
+    // one flag per entry: not all of them exist after a deletion
+    std::vector<uint8_t> found(req.add_count, 0);
 
-    auto callback = [&results](size_t i, index_type res, uint8_t
-                               /*thread_id*/) {
+    auto callback = [&results, &found](size_t i, index_type res, uint8_t
+                                       /*thread_id*/) {
         if (__builtin_expect(i < results.size(), 1)) {
             results[i] = res;
+            found[i]   = 1;
         }
     };
 
     search_parallel(req, callback, threads_count, delete_results);
+
+    // only keep the entries that were found
+    size_t n_found = 0;
+    for (size_t i = 0; i < results.size(); i++) {
+        if (found[i] != 0) {
+            results[n_found++] = results[i];
+        }
+    }
+    results.resize(n_found);
 }
 
 template<typename T>
-- 
2.43.0


From 7f735246477eb0d11ebb8b8bf5fd352f660a1f56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:58 +0000
Subject: [PATCH 55/65] fix: a damaged entry of Janus' cache was read beyond
 its end

The length check counted the size of the constant kTagSize instead of its
value.
---
 lib/janus/janus_server.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/janus/janus_server.cpp b/lib/janus/janus_server.cpp
index 5daad4b..cadea20 100644
--- a/lib/janus/janus_server.cpp
+++ b/lib/janus/janus_server.cpp
@@ -32,7 +32,7 @@ struct serialization<janus::JanusServer::cached_result_type>
                      janus::JanusServer::cached_result_type& out)
     {
         if (end < begin + sizeof(janus::index_type)
-                      + sizeof(crypto::punct::kTagSize)) {
+                      + crypto::punct::kTagSize) {
             if (end != begin) {
                 logger::logger()->error("Error when deserializing");
             }
@@ -43,7 +43,7 @@ struct serialization<janus::JanusServer::cached_result_type>
                                 + utility::hex_string(std::string(
                                     begin,
                                     begin + sizeof(janus::index_type)
-                                        + sizeof(crypto::punct::kTagSize))));
+                                        + crypto::punct::kTagSize)));
 
         janus::index_type       ind;
         crypto::punct::tag_type tag;
-- 
2.43.0


From 3201138f44a6d7b4c5bb35e28f4e3af7d1805920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:48 +0000
Subject: [PATCH 56/65] fix: Janus went on when the search counter could not be
 stored

The update counters of the keyword were then removed, and the tokens of the
next updates were those of the updates the server had just been able to
decrypt.
---
 lib/janus/janus_client.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lib/janus/janus_client.cpp b/lib/janus/janus_client.cpp
index 4bcacf6..6dd1573 100644
--- a/lib/janus/janus_client.cpp
+++ b/lib/janus/janus_client.cpp
@@ -115,7 +115,12 @@ SearchRequest JanusClient::search_request(const std::string& keyword)
     // deletions
     if (req.insertion_search_request.add_count > 0
         || req.deletion_search_request.add_count > 0) {
-        search_counter_map_.set(keyword, search_counter + 1);
+        if (!search_counter_map_.set(keyword, search_counter + 1)) {
+            // the keyword's counters must not start over in the same epoch
+            throw std::runtime_error(
+                "Unable to update the search counter for keyword \"" + keyword
+                + "\"");
+        }
     }
 
     // cleanup the counter maps
-- 
2.43.0


From 9d4a98352e56106cd17ca6c14ad91bba07eaa704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:57 +0000
Subject: [PATCH 57/65] fix: a Janus search made at the time of an update of
 its keyword, and simultaneous removals, made tokens and puncture indexes
 repeat

An update that had read the epoch before the search ended it incremented the
counter the search had just removed: its token was that of an earlier update,
and known to the server. Two removals at once read the same puncture index.
---
 lib/include/sse/schemes/janus/janus_client.hpp |  6 ++++++
 lib/janus/janus_client.cpp                     | 12 ++++++++++++
 2 files changed, 18 insertions(+)

diff --git a/lib/include/sse/schemes/janus/janus_client.hpp b/lib/include/sse/schemes/janus/janus_client.hpp
index 34b71cc..3624a0a 100644
--- a/lib/include/sse/schemes/janus/janus_client.hpp
+++ b/lib/include/sse/schemes/janus/janus_client.hpp
@@ -15,6 +15,8 @@
 #include <sse/crypto/key.hpp>
 #include <sse/crypto/prf.hpp>
 
+#include <shared_mutex>
+
 namespace sse {
 namespace janus {
 
@@ -89,6 +91,10 @@ private:
     diana::DianaClient<crypto::punct::key_share_type>  deletion_client_;
 
     sophos::RocksDBCounter search_counter_map_;
+
+    // exclusive for the operations that change the epoch of a keyword, or read
+    // a counter that they increment afterwards
+    std::shared_timed_mutex epoch_mutex_;
 };
 
 
diff --git a/lib/janus/janus_client.cpp b/lib/janus/janus_client.cpp
index 6dd1573..bc72b73 100644
--- a/lib/janus/janus_client.cpp
+++ b/lib/janus/janus_client.cpp
@@ -8,6 +8,10 @@
 
 #include <sse/schemes/janus/janus_client.hpp>
 
+#include <mutex>
+#include <shared_mutex>
+#include <stdexcept>
+
 namespace sse {
 namespace janus {
 
@@ -81,6 +85,9 @@ std::string JanusClient::meta_keyword(const std::string& kw,
 
 SearchRequest JanusClient::search_request(const std::string& keyword)
 {
+    // an update must not be prepared for the epoch that ends here
+    std::unique_lock<std::shared_timed_mutex> lock(epoch_mutex_);
+
     uint32_t search_counter = 0;
     if (!search_counter_map_.get(keyword, search_counter)) {
         search_counter = 0; // probably unnecessary but safer
@@ -137,6 +144,8 @@ SearchRequest JanusClient::search_request(const std::string& keyword)
 InsertionRequest JanusClient::insertion_request(const std::string& keyword,
                                                 const index_type   index)
 {
+    std::shared_lock<std::shared_timed_mutex> lock(epoch_mutex_);
+
     uint32_t search_counter = 0;
     if (!search_counter_map_.get(keyword, search_counter)) {
         search_counter = 0; // probably unnecessary but safer
@@ -158,6 +167,9 @@ InsertionRequest JanusClient::insertion_request(const std::string& keyword,
 DeletionRequest JanusClient::removal_request(const std::string& keyword,
                                              const index_type   index)
 {
+    // two removals must not use the same puncture index
+    std::unique_lock<std::shared_timed_mutex> lock(epoch_mutex_);
+
     uint32_t search_counter = 0;
     if (!search_counter_map_.get(keyword, search_counter)) {
         search_counter = 0; // probably unnecessary but safer
-- 
2.43.0


From 96cce9a74c23a6d6d1d45dfc7e2ca39f0bcf8803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:22 +0000
Subject: [PATCH 58/65] fix: values read asynchronously from a vector were
 released with delete although allocated with posix_memalign

---
 lib/include/sse/schemes/abstractio/awonvm_vector.hpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/lib/include/sse/schemes/abstractio/awonvm_vector.hpp b/lib/include/sse/schemes/abstractio/awonvm_vector.hpp
index e3f9fb4..a00e5ac 100644
--- a/lib/include/sse/schemes/abstractio/awonvm_vector.hpp
+++ b/lib/include/sse/schemes/abstractio/awonvm_vector.hpp
@@ -404,10 +404,11 @@ void awonvm_vector<T, ALIGNMENT>::async_get(size_t            index,
         std::unique_ptr<T> result(nullptr);
 
         if (res == sizeof(T)) {
-            result.reset(reinterpret_cast<T*>(buf));
-        } else {
-            free(buf); // avoid memory leaks
+            // the callback's owner uses delete, which must not be called on the
+            // aligned buffer
+            result.reset(new T(*reinterpret_cast<T*>(buf)));
         }
+        free(buf); // avoid memory leaks
 
         get_callback(std::move(result));
     };
@@ -476,8 +477,9 @@ void awonvm_vector<T, ALIGNMENT>::async_gets(
             std::unique_ptr<T> result(nullptr);
 
             if (res == sizeof(T)) {
-                buffer_owner->release();
-                result.reset(reinterpret_cast<T*>(buf));
+                // the callback's owner uses delete, which must not be called on
+                // the aligned buffer
+                result.reset(new T(*reinterpret_cast<T*>(buf)));
             }
 
             get_callback(std::move(result));
-- 
2.43.0


From a86b30a57cbaedf89cef6e81f64c9b274b67c8dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:22 +0000
Subject: [PATCH 59/65] fix: the Sophos and Diana servers copied tokens of any
 length sent by a client into fixed arrays, and answered such requests with OK

---
 lib/diana/server_runner.cpp         | 27 +++++++++++++++++++++++++++
 lib/sophos/sophos_server_runner.cpp | 28 ++++++++++++++++++++++++++++
 2 files changed, 55 insertions(+)

diff --git a/lib/diana/server_runner.cpp b/lib/diana/server_runner.cpp
index fcb6d42..a618076 100644
--- a/lib/diana/server_runner.cpp
+++ b/lib/diana/server_runner.cpp
@@ -189,6 +189,17 @@ grpc::Status DianaImpl::setup(__attribute__((unused))
     return grpc::Status::OK;
 }
 
+// The size of the strings of a message is chosen by its sender
+static bool is_well_formed(const SearchRequestMessage* mes)
+{
+    return mes->kw_token().size() == kKeywordTokenSize;
+}
+
+static bool is_well_formed(const UpdateRequestMessage* mes)
+{
+    return mes->update_token().size() == kUpdateTokenSize;
+}
+
 grpc::Status DianaImpl::search(grpc::ServerContext*             context,
                                const SearchRequestMessage*      mes,
                                grpc::ServerWriter<SearchReply>* writer)
@@ -210,6 +221,10 @@ grpc::Status DianaImpl::sync_search(__attribute__((unused))
                             "The server is not set up");
     }
 
+    if (!is_well_formed(mes)) {
+        return grpc::Status(grpc::INVALID_ARGUMENT, "Invalid search request");
+    }
+
     logger::logger()->trace("Start searching keyword ...");
 
     SearchRequest req = message_to_request(token_wrapper_, mes);
@@ -251,6 +266,10 @@ grpc::Status DianaImpl::async_search(__attribute__((unused))
                             "The server is not set up");
     }
 
+    if (!is_well_formed(mes)) {
+        return grpc::Status(grpc::INVALID_ARGUMENT, "Invalid search request");
+    }
+
     logger::logger()->trace("Start searching keyword...");
 
     std::atomic_uint res_size(0);
@@ -307,6 +326,10 @@ grpc::Status DianaImpl::insert(__attribute__((unused))
                             "The server is not set up");
     }
 
+    if (!is_well_formed(mes)) {
+        return grpc::Status(grpc::INVALID_ARGUMENT, "Invalid update request");
+    }
+
     logger::logger()->trace("Updating ...");
 
     server_->insert(message_to_request(mes));
@@ -332,6 +355,10 @@ grpc::Status DianaImpl::bulk_insert(
     UpdateRequestMessage mes;
 
     while (reader->Read(&mes)) {
+        if (!is_well_formed(&mes)) {
+            return grpc::Status(grpc::INVALID_ARGUMENT,
+                                "Invalid update request");
+        }
         server_->insert(message_to_request(&mes));
     }
 
diff --git a/lib/sophos/sophos_server_runner.cpp b/lib/sophos/sophos_server_runner.cpp
index 46b9669..db3e904 100644
--- a/lib/sophos/sophos_server_runner.cpp
+++ b/lib/sophos/sophos_server_runner.cpp
@@ -148,6 +148,18 @@ grpc::Status SophosImpl::setup(__attribute__((unused))
     return grpc::Status::OK;
 }
 
+// The size of the strings of a message is chosen by its sender
+static bool is_well_formed(const SearchRequestMessage* mes)
+{
+    return mes->derivation_key().size() == kDerivationKeySize
+           && mes->search_token().size() == kSearchTokenSize;
+}
+
+static bool is_well_formed(const UpdateRequestMessage* mes)
+{
+    return mes->update_token().size() == kUpdateTokenSize;
+}
+
 grpc::Status SophosImpl::search(grpc::ServerContext*                context,
                                 const sophos::SearchRequestMessage* mes,
                                 grpc::ServerWriter<sophos::SearchReply>* writer)
@@ -169,6 +181,10 @@ grpc::Status SophosImpl::sync_search(
                             "The server is not set up");
     }
 
+    if (!is_well_formed(mes)) {
+        return grpc::Status(grpc::INVALID_ARGUMENT, "Invalid search request");
+    }
+
     logger::logger()->trace("Start synchronous search...");
     std::list<uint64_t> res_list;
 
@@ -205,6 +221,10 @@ grpc::Status SophosImpl::async_search(
                             "The server is not set up");
     }
 
+    if (!is_well_formed(mes)) {
+        return grpc::Status(grpc::INVALID_ARGUMENT, "Invalid search request");
+    }
+
     logger::logger()->trace("Start asynchronous search...");
     auto req = message_to_request(mes);
 
@@ -260,6 +280,10 @@ grpc::Status SophosImpl::insert(__attribute__((unused))
                             "The server is not set up");
     }
 
+    if (!is_well_formed(mes)) {
+        return grpc::Status(grpc::INVALID_ARGUMENT, "Invalid update request");
+    }
+
     logger::logger()->trace("Start updating");
 
     server_->insert(message_to_request(mes));
@@ -284,6 +308,10 @@ grpc::Status SophosImpl::bulk_insert(
     sophos::UpdateRequestMessage mes;
 
     while (reader->Read(&mes)) {
+        if (!is_well_formed(&mes)) {
+            return grpc::Status(grpc::INVALID_ARGUMENT,
+                                "Invalid update request");
+        }
         server_->insert(message_to_request(&mes));
     }
 
-- 
2.43.0


From 757fa1f31e7e85d01ff70b09c0459127d6f541bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:22 +0000
Subject: [PATCH 60/65] fix: a Diana setup with a wrapping key of another size
 left the server half set up

---
 lib/diana/server_runner.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/lib/diana/server_runner.cpp b/lib/diana/server_runner.cpp
index a618076..92bfa40 100644
--- a/lib/diana/server_runner.cpp
+++ b/lib/diana/server_runner.cpp
@@ -115,6 +115,13 @@ grpc::Status DianaImpl::setup(__attribute__((unused))
                             "The server was already set up");
     }
 
+    if (message->wrapping_key().size() != crypto::Wrapper::kKeySize) {
+        logger::logger()->error("Invalid wrapping key size");
+
+        return grpc::Status(grpc::INVALID_ARGUMENT,
+                            "Invalid transmitted wrapping key size");
+    }
+
     // create the content directory but first check that nothing is already
     // there
 
@@ -166,13 +173,6 @@ grpc::Status DianaImpl::setup(__attribute__((unused))
                             "Unable to write the wrapping key to disk");
     }
 
-    if (message->wrapping_key().size() != crypto::Wrapper::kKeySize) {
-        logger::logger()->error("Invalid wrapping key size");
-
-        return grpc::Status(grpc::INVALID_ARGUMENT,
-                            "Invalid transmitted wrapping key size");
-    }
-
     wrapping_key_out << message->wrapping_key();
     wrapping_key_out.close();
 
-- 
2.43.0


From 8be5cf314f84fcd82ea4b476fd0e6b74b8076757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:45 +0000
Subject: [PATCH 61/65] fix: the Sophos and Diana runners used the number of
 processors as a number of threads although it can be 0 or exceed 255

---
 lib/diana/client_runner.cpp         |  4 +++-
 lib/diana/server_runner.cpp         | 12 ++++++++++--
 lib/sophos/sophos_client_runner.cpp |  4 +++-
 lib/sophos/sophos_server_runner.cpp | 13 +++++++++++--
 4 files changed, 27 insertions(+), 6 deletions(-)

diff --git a/lib/diana/client_runner.cpp b/lib/diana/client_runner.cpp
index 0b47c1a..17901a6 100644
--- a/lib/diana/client_runner.cpp
+++ b/lib/diana/client_runner.cpp
@@ -34,6 +34,7 @@
 
 #include <grpcpp/grpcpp.h>
 
+#include <algorithm>
 #include <chrono>
 #include <fstream>
 #include <iostream>
@@ -437,7 +438,8 @@ bool DianaClientRunner::load_inverted_index(const std::string& path)
 {
     try {
         dbparser::DBParserJSON parser(path.c_str());
-        ThreadPool             pool(std::thread::hardware_concurrency());
+        ThreadPool             pool(
+            std::max(std::thread::hardware_concurrency(), 1U));
 
         std::atomic_size_t counter(0);
 
diff --git a/lib/diana/server_runner.cpp b/lib/diana/server_runner.cpp
index 92bfa40..2f74850 100644
--- a/lib/diana/server_runner.cpp
+++ b/lib/diana/server_runner.cpp
@@ -31,6 +31,7 @@
 
 #include <grpcpp/grpcpp.h>
 
+#include <algorithm>
 #include <atomic>
 #include <fstream>
 #include <thread>
@@ -255,6 +256,14 @@ grpc::Status DianaImpl::sync_search(__attribute__((unused))
 }
 
 
+// The number of threads of a search: hardware_concurrency() can be 0, and the
+// search functions take it in 8 bits
+static uint8_t search_threads()
+{
+    return static_cast<uint8_t>(
+        std::min(std::max(std::thread::hardware_concurrency(), 1U), 255U));
+}
+
 grpc::Status DianaImpl::async_search(__attribute__((unused))
                                      grpc::ServerContext*             context,
                                      const SearchRequestMessage*      mes,
@@ -296,8 +305,7 @@ grpc::Status DianaImpl::async_search(__attribute__((unused))
         if (mes->add_count() >= 2) { // run the search algorithm in parallel
                                      // only if there are more than 2 results
 
-            server_->search_parallel(
-                req, post_callback, std::thread::hardware_concurrency());
+            server_->search_parallel(req, post_callback, search_threads());
 
         } else {
             server_->search(req, post_callback);
diff --git a/lib/sophos/sophos_client_runner.cpp b/lib/sophos/sophos_client_runner.cpp
index 9c8ad43..e8bc34f 100644
--- a/lib/sophos/sophos_client_runner.cpp
+++ b/lib/sophos/sophos_client_runner.cpp
@@ -36,6 +36,7 @@
 
 #include <grpcpp/grpcpp.h>
 
+#include <algorithm>
 #include <chrono>
 #include <fstream>
 #include <iostream>
@@ -384,7 +385,8 @@ bool SophosClientRunner::load_inverted_index(const std::string& path)
 {
     try {
         dbparser::DBParserJSON parser(path.c_str());
-        ThreadPool             pool(std::thread::hardware_concurrency());
+        ThreadPool             pool(
+            std::max(std::thread::hardware_concurrency(), 1U));
 
         std::atomic_size_t counter(0);
 
diff --git a/lib/sophos/sophos_server_runner.cpp b/lib/sophos/sophos_server_runner.cpp
index db3e904..e3c52b1 100644
--- a/lib/sophos/sophos_server_runner.cpp
+++ b/lib/sophos/sophos_server_runner.cpp
@@ -29,6 +29,7 @@
 
 #include <grpcpp/grpcpp.h>
 
+#include <algorithm>
 #include <atomic>
 #include <fstream>
 #include <thread>
@@ -210,6 +211,14 @@ grpc::Status SophosImpl::sync_search(
 }
 
 
+// The number of threads of a search: hardware_concurrency() can be 0, and the
+// search functions take it in 8 bits
+static uint8_t search_threads()
+{
+    return static_cast<uint8_t>(
+        std::min(std::max(std::thread::hardware_concurrency(), 1U), 255U));
+}
+
 grpc::Status SophosImpl::async_search(
     __attribute__((unused)) grpc::ServerContext* context,
     const sophos::SearchRequestMessage*          mes,
@@ -249,10 +258,10 @@ grpc::Status SophosImpl::async_search(
         if (mes->add_count() >= 40) { // run the search algorithm in parallel
                                       // only if there are more than 2 results
             server_->search_parallel_callback(
-                req, post_callback, std::thread::hardware_concurrency(), 8, 1);
+                req, post_callback, search_threads(), 8, 1);
         } else if (mes->add_count() >= 2) {
             server_->search_parallel_light_callback(
-                req, post_callback, std::thread::hardware_concurrency());
+                req, post_callback, search_threads());
         } else {
             server_->search_callback(req, post_callback);
         }
-- 
2.43.0


From a54245858a134998d333e869bbff08d5a904d91e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:45 +0000
Subject: [PATCH 62/65] fix: a failed load_inverted_index left its update
 session open, and its tasks used a destroyed counter

---
 lib/diana/client_runner.cpp         | 9 +++++++--
 lib/sophos/sophos_client_runner.cpp | 9 +++++++--
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/lib/diana/client_runner.cpp b/lib/diana/client_runner.cpp
index 17901a6..bf7667a 100644
--- a/lib/diana/client_runner.cpp
+++ b/lib/diana/client_runner.cpp
@@ -436,13 +436,14 @@ void DianaClientRunner::end_update_session()
 
 bool DianaClientRunner::load_inverted_index(const std::string& path)
 {
+    bool session_started = false;
+
     try {
         dbparser::DBParserJSON parser(path.c_str());
+        std::atomic_size_t     counter(0); // used by the pool's tasks
         ThreadPool             pool(
             std::max(std::thread::hardware_concurrency(), 1U));
 
-        std::atomic_size_t counter(0);
-
         auto add_list_callback = [this, &pool, &counter](
                                      const std::string&         kw,
                                      const std::list<unsigned>& docs) {
@@ -473,6 +474,7 @@ bool DianaClientRunner::load_inverted_index(const std::string& path)
 
         // NOLINTNEXTLINE(clang-analyzer-core.CallAndMessage)
         start_update_session();
+        session_started = true;
 
         parser.parse();
 
@@ -485,6 +487,9 @@ bool DianaClientRunner::load_inverted_index(const std::string& path)
     } catch (std::exception& e) {
         logger::logger()->error("Failed to load file " + path + ": \n"
                                 + e.what());
+        if (session_started) {
+            end_update_session();
+        }
         return false;
     }
     return false;
diff --git a/lib/sophos/sophos_client_runner.cpp b/lib/sophos/sophos_client_runner.cpp
index e8bc34f..33327b0 100644
--- a/lib/sophos/sophos_client_runner.cpp
+++ b/lib/sophos/sophos_client_runner.cpp
@@ -383,13 +383,14 @@ void SophosClientRunner::end_update_session()
 
 bool SophosClientRunner::load_inverted_index(const std::string& path)
 {
+    bool session_started = false;
+
     try {
         dbparser::DBParserJSON parser(path.c_str());
+        std::atomic_size_t     counter(0); // used by the pool's tasks
         ThreadPool             pool(
             std::max(std::thread::hardware_concurrency(), 1U));
 
-        std::atomic_size_t counter(0);
-
         auto add_list_callback = [this, &pool, &counter](
                                      const std::string&         kw,
                                      const std::list<unsigned>& docs) {
@@ -414,6 +415,7 @@ bool SophosClientRunner::load_inverted_index(const std::string& path)
         // De-activate clang-tidy because of a false positive in gRPC
         // NOLINTNEXTLINE(clang-analyzer-core.CallAndMessage)
         start_update_session();
+        session_started = true;
 
         parser.parse();
 
@@ -426,6 +428,9 @@ bool SophosClientRunner::load_inverted_index(const std::string& path)
     } catch (std::exception& e) {
         logger::logger()->error("Failed to load file " + path + ": "
                                 + e.what());
+        if (session_started) {
+            end_update_session();
+        }
         return false;
     }
     return false;
-- 
2.43.0


From 3927a888de32f4411a770d8ed9c683d70a258486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:17 +0000
Subject: [PATCH 63/65] fix: the record of a search benchmark was lost when its
 message contained braces

---
 lib/utils/logger.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/lib/utils/logger.cpp b/lib/utils/logger.cpp
index 2ef710d..3610c9e 100644
--- a/lib/utils/logger.cpp
+++ b/lib/utils/logger.cpp
@@ -127,9 +127,20 @@ constexpr auto search_JSON_begin
 constexpr auto search_JSON_end
     = "\", \"items\" : {0}, \"time\" : {1}, \"time/item\" : {2} }}";
 
+// the message is a part of a fmt format string: double its braces
+static std::string escape_braces(const std::string& message)
+{
+    std::string escaped;
+
+    for (char c : message) {
+        escaped.append((c == '{' || c == '}') ? 2 : 1, c);
+    }
+    return escaped;
+}
+
 // cppcheck-suppress passedByValue
 SearchBenchmark::SearchBenchmark(std::string message)
-    : Benchmark(search_JSON_begin + std::move(message) + search_JSON_end)
+    : Benchmark(search_JSON_begin + escape_braces(message) + search_JSON_end)
 {
 }
 } // namespace sse
\ No newline at end of file
-- 
2.43.0


From f6fe9081e20b071fd33131d989128608895b4e6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:07 +0000
Subject: [PATCH 64/65] fix: the random groups of 100 documents of the database
 generator were mixed up with those of 1000

---
 lib/utils/db_generator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/utils/db_generator.cpp b/lib/utils/db_generator.cpp
index fff8b50..ea098c8 100644
--- a/lib/utils/db_generator.cpp
+++ b/lib/utils/db_generator.cpp
@@ -278,7 +278,7 @@ static void generation_job(
                 if (group_rand_10_2[g] < size_group_2) {
                     group_rand_10_2[g]++;
                     kw = kKeywordRand10GroupBase;
-                    kw.append("3_").append(id_string).append("_").append(
+                    kw.append("2_").append(id_string).append("_").append(
                         std::to_string(g));
                     insertions.push_back(kw);
                 }
-- 
2.43.0


From 6b16c373dabed9abb595a6b1028bd59068457d16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:07 +0000
Subject: [PATCH 65/65] fix: the database generator made nothing when the
 number of processors is unknown

---
 lib/utils/db_generator.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/utils/db_generator.cpp b/lib/utils/db_generator.cpp
index ea098c8..75f72a6 100644
--- a/lib/utils/db_generator.cpp
+++ b/lib/utils/db_generator.cpp
@@ -522,7 +522,11 @@ void gen_db(size_t                                                 N_entries,
     std::atomic_size_t entries_counter(0);
     std::atomic_size_t docs_counter(0);
 
-    unsigned int             n_threads = std::thread::hardware_concurrency();
+    // (the number of processors can be unknown, i.e. 0)
+    unsigned int n_threads = std::thread::hardware_concurrency();
+    if (n_threads == 0) {
+        n_threads = 1;
+    }
     std::vector<std::thread> threads;
 
     for (unsigned int i = 0; i < n_threads; i++) {
-- 
2.43.0

