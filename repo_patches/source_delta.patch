From 95cddaedafbdbbac6bfe9aef1415b41a3cdd4d42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:39 +0000
Subject: [PATCH 01/50] fix: do not count a failed io_getevents as completed
 queries

When io_getevents was interrupted (-EINTR), the negative return value was
added to the number of completed queries: wait_completions then either
returned too early or never.
---
 lib/abstractio/linux_aio_scheduler.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/lib/abstractio/linux_aio_scheduler.cpp b/lib/abstractio/linux_aio_scheduler.cpp
index bd41073..e0c885f 100644
--- a/lib/abstractio/linux_aio_scheduler.cpp
+++ b/lib/abstractio/linux_aio_scheduler.cpp
@@ -67,8 +67,14 @@ void LinuxAIOScheduler::notify_loop()
         int num_events = io_getevents(m_ioctx, 1, kMaxNr, events, &timeout);
 
         if (num_events < 0) {
-            std::cerr << "Error in io_getevents: " << std::to_string(errno)
-                      << "(" << strerror(errno) << ")\n";
+            // libaio returns the negated error code. No event was read, so
+            // this must not be counted as completed queries.
+            if (num_events != -EINTR) {
+                std::cerr << "Error in io_getevents: "
+                          << std::to_string(-num_events) << "("
+                          << strerror(-num_events) << ")\n";
+            }
+            continue;
         }
 
         if (num_events > 0) {
-- 
2.43.0


From 6dbafc898f375294558b9eb817f9bb259bb99888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:10 +0000
Subject: [PATCH 02/50] fix: settle every request of a batch that io_submit
 refuses in part

When io_submit failed after having accepted some requests of a batch,
submit_preads returned -1 although callbacks were still to come, and callers
released buffers of requests in flight. Requests that could not be submitted
were also leaked. A batch is now either refused as a whole, without any
callback, or accepted as a whole, the requests which could not be submitted
completing with the error.
---
 lib/abstractio/linux_aio_scheduler.cpp | 51 ++++++++++++++++++++------
 lib/abstractio/linux_aio_scheduler.hpp |  2 +-
 2 files changed, 41 insertions(+), 12 deletions(-)

diff --git a/lib/abstractio/linux_aio_scheduler.cpp b/lib/abstractio/linux_aio_scheduler.cpp
index e0c885f..28e4ce8 100644
--- a/lib/abstractio/linux_aio_scheduler.cpp
+++ b/lib/abstractio/linux_aio_scheduler.cpp
@@ -123,13 +123,14 @@ void LinuxAIOScheduler::wait_completions()
     }
 }
 
-size_t LinuxAIOScheduler::submit_iocbs(struct iocb** iocbs, size_t n_iocbs)
+int LinuxAIOScheduler::submit_iocbs(struct iocb** iocbs, size_t n_iocbs)
 {
     // cppcheck-suppress unreadVariable
     int           res            = -EAGAIN;
     size_t        remaining_subs = n_iocbs;
     struct iocb** iocbs_head     = iocbs;
 
+    std::vector<std::pair<struct iocb*, int>> failed_iocbs;
 
     while (remaining_subs > 0) {
         res = io_submit(m_ioctx, remaining_subs, iocbs_head);
@@ -158,14 +159,38 @@ size_t LinuxAIOScheduler::submit_iocbs(struct iocb** iocbs, size_t n_iocbs)
                 m_cv_submission.wait(lock);
             }
         } else {
-            m_failed_queries_count.fetch_add(remaining_subs);
-            std::cerr << "Submission error: " << res << "\n";
-            perror("io_submit");
-            return -1;
+            std::cerr << "Submission error: " << res << "(" << strerror(-res)
+                      << ")\n";
+
+            // the error is about the first request: the others might still be
+            // accepted
+            failed_iocbs.emplace_back(*iocbs_head, res);
+            remaining_subs--;
+            iocbs_head++;
         }
     }
 
-    return n_iocbs - remaining_subs;
+    if (failed_iocbs.empty()) {
+        return static_cast<int>(n_iocbs);
+    }
+
+    // If nothing was submitted, the whole call is refused and no callback is
+    // run. Otherwise, some of the requests are already in flight and the call
+    // cannot be refused any more: the ones which could not be submitted
+    // complete with the error.
+    const bool refused = (failed_iocbs.size() == n_iocbs);
+
+    for (const auto& failed : failed_iocbs) {
+        LinuxAIORequest* req
+            = static_cast<LinuxAIORequest*>(failed.first->data);
+        if (!refused) {
+            req->notify(failed.second);
+        }
+        delete req;
+    }
+    m_failed_queries_count.fetch_add(failed_iocbs.size());
+
+    return refused ? failed_iocbs.front().second : static_cast<int>(n_iocbs);
 }
 
 int LinuxAIOScheduler::submit_pread(int                     fd,
@@ -210,6 +235,15 @@ int LinuxAIOScheduler::submit_preads(const std::vector<PReadSumission>& subs)
                                       // code conventions
     }
 
+    // check that the arguments are well-formed: either all the requests are
+    // submitted, or none is
+    for (const auto& sub : subs) {
+        int ret = check_args(sub.buf, sub.len, sub.offset);
+        if (ret != 0) {
+            return ret;
+        }
+    }
+
     struct iocb** iocbs
         = static_cast<struct iocb**>(calloc(subs.size(), sizeof(struct iocb*)));
     size_t iocbs_count = 0;
@@ -221,11 +255,6 @@ int LinuxAIOScheduler::submit_preads(const std::vector<PReadSumission>& subs)
 
     // fill in all the iocbs needed
     for (const auto& sub : subs) {
-        // check that the arguments are well-formed
-        if (check_args(sub.buf, sub.len, sub.offset) != 0) {
-            continue;
-        }
-
         uint64_t         query_id = m_submitted_queries_count.fetch_add(1);
         LinuxAIORequest* req
             = new LinuxAIORequest(query_id, sub.data, sub.callback);
diff --git a/lib/abstractio/linux_aio_scheduler.hpp b/lib/abstractio/linux_aio_scheduler.hpp
index a4b8970..8a5a195 100644
--- a/lib/abstractio/linux_aio_scheduler.hpp
+++ b/lib/abstractio/linux_aio_scheduler.hpp
@@ -47,7 +47,7 @@ private:
 
     int check_args(void* buf, size_t len, off_t offset) const;
 
-    size_t submit_iocbs(struct iocb** iocbs, size_t n_iocbs);
+    int submit_iocbs(struct iocb** iocbs, size_t n_iocbs);
 
 
     struct LinuxAIORequest
-- 
2.43.0


From 94b486fae5a980b7719c2da4f8771f2c4a2e1267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:54 +0000
Subject: [PATCH 03/50] fix: wait for the last query to release the thread pool
 scheduler

wait_completions read the number of running queries without the lock: it
could return, and the scheduler be destroyed, while the last query was still
holding the scheduler's mutex.
---
 lib/abstractio/thread_pool_aio_scheduler.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/lib/abstractio/thread_pool_aio_scheduler.cpp b/lib/abstractio/thread_pool_aio_scheduler.cpp
index 95b7725..e02efee 100644
--- a/lib/abstractio/thread_pool_aio_scheduler.cpp
+++ b/lib/abstractio/thread_pool_aio_scheduler.cpp
@@ -32,11 +32,11 @@ ThreadPoolAIOScheduler::~ThreadPoolAIOScheduler()
 
 void ThreadPoolAIOScheduler::wait_completions()
 {
-    while (this->m_running_queries != 0) {
-        std::unique_lock<std::mutex> lock(m_cv_lock);
-        m_cv_submission.wait(lock,
-                             [this] { return this->m_running_queries == 0; });
-    }
+    // the lock must always be taken: the last query might have been counted as
+    // completed but still be using the mutex and the condition variable
+    std::unique_lock<std::mutex> lock(m_cv_lock);
+    m_cv_submission.wait(lock,
+                         [this] { return this->m_running_queries == 0; });
 }
 
 int ThreadPoolAIOScheduler::submit_pread(int                     fd,
-- 
2.43.0


From eff1dd22aff999f752e3721ff3519c25f76855bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:13 +0000
Subject: [PATCH 04/50] fix: do not miss the completions that make room in a
 full queue

A submission that found the queue full started waiting only after io_submit
had failed: when the last requests in flight were reaped in between, nobody
was left to wake it up, and it waited forever.
---
 lib/abstractio/linux_aio_scheduler.cpp | 9 ++++++---
 lib/abstractio/linux_aio_scheduler.hpp | 2 +-
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/lib/abstractio/linux_aio_scheduler.cpp b/lib/abstractio/linux_aio_scheduler.cpp
index 28e4ce8..c6ba2da 100644
--- a/lib/abstractio/linux_aio_scheduler.cpp
+++ b/lib/abstractio/linux_aio_scheduler.cpp
@@ -79,7 +79,7 @@ void LinuxAIOScheduler::notify_loop()
 
         if (num_events > 0) {
             std::lock_guard<std::mutex> guard(m_cv_lock);
-            m_waiting_submissions = false;
+            m_reaped_batches_count++;
 
             m_cv_submission.notify_all();
         }
@@ -133,6 +133,10 @@ int LinuxAIOScheduler::submit_iocbs(struct iocb** iocbs, size_t n_iocbs)
     std::vector<std::pair<struct iocb*, int>> failed_iocbs;
 
     while (remaining_subs > 0) {
+        // has to be read before the submission is tried: if the queue is full,
+        // what makes it so is reaped after that point
+        const uint64_t reaped_before = m_reaped_batches_count.load();
+
         res = io_submit(m_ioctx, remaining_subs, iocbs_head);
 #ifdef LOG_AIO_SCHEDULER_STATS
         m_submit_calls++;
@@ -154,8 +158,7 @@ int LinuxAIOScheduler::submit_iocbs(struct iocb** iocbs, size_t n_iocbs)
             // wait until the submission queue has some space
             std::unique_lock<std::mutex> lock(m_cv_lock);
 
-            m_waiting_submissions = true;
-            while (m_waiting_submissions) {
+            while (m_reaped_batches_count.load() == reaped_before) {
                 m_cv_submission.wait(lock);
             }
         } else {
diff --git a/lib/abstractio/linux_aio_scheduler.hpp b/lib/abstractio/linux_aio_scheduler.hpp
index 8a5a195..b7a4ad0 100644
--- a/lib/abstractio/linux_aio_scheduler.hpp
+++ b/lib/abstractio/linux_aio_scheduler.hpp
@@ -79,7 +79,7 @@ private:
 
     std::mutex              m_cv_lock;
     std::condition_variable m_cv_submission;
-    bool                    m_waiting_submissions{false};
+    std::atomic<uint64_t>   m_reaped_batches_count{0};
 
 #ifdef LOG_AIO_SCHEDULER_STATS
     std::atomic_size_t m_submit_calls{0};
-- 
2.43.0


From 18d9b4c7c707a39739287bfae6528f3bec65b52c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:29 +0000
Subject: [PATCH 05/50] fix: let several threads use the logger for the first
 time

Two threads that logged for the first time at once both created the console
logger, and one got an exception: a failed read of the thread pool scheduler
then never called back, and waiting for it never ended.
---
 lib/utils/logger.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/utils/logger.cpp b/lib/utils/logger.cpp
index 69813c8..77cfdab 100644
--- a/lib/utils/logger.cpp
+++ b/lib/utils/logger.cpp
@@ -28,14 +28,18 @@
 #include <fstream>
 #include <iostream>
 #include <memory>
+#include <mutex>
 
 namespace sse {
 namespace logger {
 
 std::shared_ptr<spdlog::logger> shared_logger_(nullptr);
+static std::mutex               shared_logger_mutex_;
 
 std::shared_ptr<spdlog::logger> logger()
 {
+    std::lock_guard<std::mutex> lock(shared_logger_mutex_);
+
     if (!shared_logger_) {
         // initialize the logger
         shared_logger_ = spdlog::stderr_color_mt("console");
@@ -45,6 +49,8 @@ std::shared_ptr<spdlog::logger> logger()
 
 void set_logger(const std::shared_ptr<spdlog::logger>& logger)
 {
+    std::lock_guard<std::mutex> lock(shared_logger_mutex_);
+
     if (logger) {
         shared_logger_ = logger;
     } else {
-- 
2.43.0


From 8977140e8d23cb6691d267326756c1f3bd3ff624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:02 +0000
Subject: [PATCH 06/50] fix: refuse async_push_back on a committed vector

push_back checks it, async_push_back did not: a committed, write-once vector
could be extended and its file modified.
---
 lib/include/sse/schemes/abstractio/awonvm_vector.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/include/sse/schemes/abstractio/awonvm_vector.hpp b/lib/include/sse/schemes/abstractio/awonvm_vector.hpp
index 087f142..800e691 100644
--- a/lib/include/sse/schemes/abstractio/awonvm_vector.hpp
+++ b/lib/include/sse/schemes/abstractio/awonvm_vector.hpp
@@ -246,6 +246,11 @@ size_t awonvm_vector<T, ALIGNMENT>::async_push_back(const T& val)
         throw std::runtime_error("No IO Scheduler set");
     }
 
+    if (m_is_committed) {
+        throw std::runtime_error(
+            "Invalid state during write: the vector is committed");
+    }
+
     if (!m_use_direct_io && !m_io_warn_flag) {
         std::cerr << "awonvm_vector uses buffered IOs. Calls for async IOs "
                      "will be synchronous.\n";
-- 
2.43.0


From 9b24e679e1ab68c4ee0c34d832f043ec0c17c423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:08 +0000
Subject: [PATCH 07/50] fix: refuse to read the element after the last one of a
 vector

---
 lib/include/sse/schemes/abstractio/awonvm_vector.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/include/sse/schemes/abstractio/awonvm_vector.hpp b/lib/include/sse/schemes/abstractio/awonvm_vector.hpp
index 800e691..440aeb5 100644
--- a/lib/include/sse/schemes/abstractio/awonvm_vector.hpp
+++ b/lib/include/sse/schemes/abstractio/awonvm_vector.hpp
@@ -338,7 +338,7 @@ void awonvm_vector<T, ALIGNMENT>::set_use_direct_access(bool flag)
 template<typename T, size_t ALIGNMENT>
 T awonvm_vector<T, ALIGNMENT>::get(size_t index)
 {
-    if (index > m_size.load()) {
+    if (index >= m_size.load()) {
         throw std::invalid_argument("Index (" + std::to_string(index)
                                     + ") out of bounds (size="
                                     + std::to_string(m_size.load()) + ")");
@@ -380,7 +380,7 @@ void awonvm_vector<T, ALIGNMENT>::async_get(size_t            index,
         m_io_warn_flag = true;
     }
 
-    if (index > m_size.load()) {
+    if (index >= m_size.load()) {
         throw std::invalid_argument("Index (" + std::to_string(index)
                                     + ") out of bounds (size="
                                     + std::to_string(m_size.load()) + ")");
@@ -443,7 +443,7 @@ void awonvm_vector<T, ALIGNMENT>::async_gets(
     submissions.reserve(requests.size());
 
     for (const auto& req : requests) {
-        if (req.index > m_size.load()) {
+        if (req.index >= m_size.load()) {
             throw std::invalid_argument("Index (" + std::to_string(req.index)
                                         + ") out of bounds (size="
                                         + std::to_string(m_size.load()) + ")");
-- 
2.43.0


From bf5451fc59f568754871527bc39185684744d1fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:29 +0000
Subject: [PATCH 08/50] fix: write synchronously appended elements at their own
 position

push_back wrote at the descriptor's current position, which is not the one
of the returned index when elements are appended concurrently, or also
asynchronously: elements were swapped or overwritten.
---
 lib/include/sse/schemes/abstractio/awonvm_vector.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/include/sse/schemes/abstractio/awonvm_vector.hpp b/lib/include/sse/schemes/abstractio/awonvm_vector.hpp
index 440aeb5..a8a2053 100644
--- a/lib/include/sse/schemes/abstractio/awonvm_vector.hpp
+++ b/lib/include/sse/schemes/abstractio/awonvm_vector.hpp
@@ -220,11 +220,11 @@ size_t awonvm_vector<T, ALIGNMENT>::push_back(const T& val)
     }
 
     size_t pos = m_size.fetch_add(1);
-    // off_t  off = pos * sizeof(T);
+    off_t  off = pos * sizeof(T);
 
-    // fix issue with the alignment of val
-    // int res = pwrite(m_fd, &val, sizeof(T), off);
-    int res = write(m_fd, &val, sizeof(T));
+    // the element has to be written at its own position, and not at the current
+    // one of the descriptor: other elements might be appended at the same time
+    ssize_t res = pwrite(m_fd, &val, sizeof(T), off);
 
     if (res != sizeof(T)) {
         std::cerr << "Error during pwrite: " << res << "\n";
-- 
2.43.0


From 9de3a85effff19dc6a2c5a449b214107ec659c26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:38 +0000
Subject: [PATCH 09/50] fix: move the size and the state of a moved
 awonvm_vector

The moved-to vector forgot its size and that it was committed, and the
moved-from one closed the file descriptor 0.
---
 .../sse/schemes/abstractio/awonvm_vector.hpp        | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/lib/include/sse/schemes/abstractio/awonvm_vector.hpp b/lib/include/sse/schemes/abstractio/awonvm_vector.hpp
index a8a2053..fc35cf0 100644
--- a/lib/include/sse/schemes/abstractio/awonvm_vector.hpp
+++ b/lib/include/sse/schemes/abstractio/awonvm_vector.hpp
@@ -173,9 +173,14 @@ template<typename T, size_t ALIGNMENT>
 awonvm_vector<T, ALIGNMENT>::awonvm_vector(awonvm_vector&& vec) noexcept
     : m_filename(vec.m_filename), m_use_direct_io(vec.m_use_direct_io),
       m_fd(vec.m_fd), m_device_page_size(vec.m_device_page_size),
-      m_io_scheduler(std::move(vec.m_io_scheduler))
+      m_size(vec.m_size.load()), m_is_committed(vec.m_is_committed.load()),
+      m_io_scheduler(std::move(vec.m_io_scheduler)),
+      m_io_warn_flag(vec.m_io_warn_flag)
 {
-    vec.m_fd = 0;
+    // nothing is left to be written or closed by the moved vector
+    vec.m_fd           = -1;
+    vec.m_is_committed = true;
+    vec.m_size         = 0;
 }
 
 template<typename T, size_t ALIGNMENT>
@@ -188,7 +193,9 @@ awonvm_vector<T, ALIGNMENT>::~awonvm_vector()
             m_io_scheduler->wait_completions();
         }
     }
-    close(m_fd);
+    if (m_fd >= 0) {
+        close(m_fd);
+    }
 }
 
 template<typename T, size_t ALIGNMENT>
-- 
2.43.0


From 7098345bc13bcfe16c249ca32f6d1d75d59ec10d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:56 +0000
Subject: [PATCH 10/50] fix: do not commit a vector some elements of which
 could not be written

The result of asynchronous writes was ignored: failed and short writes were
silently lost, and the vector was committed with holes. A synchronous append
that failed was reported, but did not prevent the vector from being committed
either. Such a vector stays uncommitted, and is not taken for a committed one
when it is reopened.
---
 .../sse/schemes/abstractio/awonvm_vector.hpp  | 54 +++++++++++++++----
 1 file changed, 43 insertions(+), 11 deletions(-)

diff --git a/lib/include/sse/schemes/abstractio/awonvm_vector.hpp b/lib/include/sse/schemes/abstractio/awonvm_vector.hpp
index fc35cf0..b8562e3 100644
--- a/lib/include/sse/schemes/abstractio/awonvm_vector.hpp
+++ b/lib/include/sse/schemes/abstractio/awonvm_vector.hpp
@@ -94,6 +94,11 @@ private:
 
     std::atomic<bool> m_is_committed{false};
 
+    // set as soon as an element could not be (completely) written. It is shared
+    // with the callbacks of the asynchronous writes.
+    std::shared_ptr<std::atomic<bool>> m_write_failed{
+        std::make_shared<std::atomic<bool>>(false)};
+
     std::unique_ptr<Scheduler> m_io_scheduler;
     bool                       m_io_warn_flag{false};
 };
@@ -174,6 +179,7 @@ awonvm_vector<T, ALIGNMENT>::awonvm_vector(awonvm_vector&& vec) noexcept
     : m_filename(vec.m_filename), m_use_direct_io(vec.m_use_direct_io),
       m_fd(vec.m_fd), m_device_page_size(vec.m_device_page_size),
       m_size(vec.m_size.load()), m_is_committed(vec.m_is_committed.load()),
+      m_write_failed(std::move(vec.m_write_failed)),
       m_io_scheduler(std::move(vec.m_io_scheduler)),
       m_io_warn_flag(vec.m_io_warn_flag)
 {
@@ -234,6 +240,8 @@ size_t awonvm_vector<T, ALIGNMENT>::push_back(const T& val)
     ssize_t res = pwrite(m_fd, &val, sizeof(T), off);
 
     if (res != sizeof(T)) {
+        m_write_failed->store(true);
+
         std::cerr << "Error during pwrite: " << res << "\n";
 
         std::cerr << "errno " + std::to_string(errno) << "(" << strerror(errno)
@@ -276,7 +284,14 @@ size_t awonvm_vector<T, ALIGNMENT>::async_push_back(const T& val)
     }
     memcpy(buf, &val, sizeof(T));
 
-    auto cb = [](void* b, size_t /*res*/) {
+    auto write_failed = m_write_failed;
+
+    auto cb = [write_failed](void* b, int64_t res) {
+        if (res != sizeof(T)) {
+            write_failed->store(true);
+            sse::logger::logger()->error(
+                "Error during an async write: {} instead of {}", res, sizeof(T));
+        }
         // std::cerr << (int)((uint8_t*)b)[0] << "\t" << res << "\n";
         // if (buf != b) {
         //     std::cerr << "Issue: inconsistent buffer\n";
@@ -291,6 +306,9 @@ size_t awonvm_vector<T, ALIGNMENT>::async_push_back(const T& val)
     ret = m_io_scheduler->submit_pwrite(m_fd, buf, sizeof(T), off, buf, cb);
 
     if (ret != 1) {
+        m_write_failed->store(true);
+        free(buf);
+
         // we should have a specific exception type here to be able to return
         // which position was corrupted
         throw std::runtime_error("Error when submitting the read async IO: "
@@ -304,18 +322,32 @@ size_t awonvm_vector<T, ALIGNMENT>::async_push_back(const T& val)
 template<typename T, size_t ALIGNMENT>
 void awonvm_vector<T, ALIGNMENT>::commit() noexcept
 {
-    if (!m_is_committed) {
-        if (m_io_scheduler) {
-            m_io_scheduler->wait_completions();
-            Scheduler* new_sched = m_io_scheduler->duplicate();
-            m_io_scheduler.reset(
-                new_sched); // this will block until the completion of write
-                            // queries and then create a new scheduler for
-                            // future async read queries
-        } else {
-            fsync(m_fd);
+    if (m_is_committed) {
+        return;
+    }
+
+    if (m_io_scheduler) {
+        m_io_scheduler->wait_completions();
+        Scheduler* new_sched = m_io_scheduler->duplicate();
+        m_io_scheduler.reset(
+            new_sched); // this will block until the completion of write
+                        // queries and then create a new scheduler for
+                        // future async read queries
+    }
+
+    if (*m_write_failed) {
+        sse::logger::logger()->error(
+            "Unable to commit {}: some elements could not be written",
+            m_filename);
+
+        // the file must not be taken for a committed vector when reopened
+        if (ftruncate(m_fd, 0) != 0 || fsync(m_fd) != 0) {
+            sse::logger::logger()->error(
+                "Unable to discard {}. Error: {}", m_filename, strerror(errno));
         }
+        return;
     }
+
     m_is_committed = true;
 }
 
-- 
2.43.0


From 9bf76570962f735f8ac4e45a25d315bc159746eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:01 +0000
Subject: [PATCH 11/50] fix: sync a vector when it is committed, whatever its
 scheduler

The file was synced only when the vector had no scheduler, and the result of
fsync was ignored: a committed vector could be lost in a power failure.
---
 lib/include/sse/schemes/abstractio/awonvm_vector.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/lib/include/sse/schemes/abstractio/awonvm_vector.hpp b/lib/include/sse/schemes/abstractio/awonvm_vector.hpp
index b8562e3..b761df2 100644
--- a/lib/include/sse/schemes/abstractio/awonvm_vector.hpp
+++ b/lib/include/sse/schemes/abstractio/awonvm_vector.hpp
@@ -335,6 +335,13 @@ void awonvm_vector<T, ALIGNMENT>::commit() noexcept
                         // future async read queries
     }
 
+    // the completed writes are not durable before this point
+    if (!*m_write_failed && fsync(m_fd) != 0) {
+        m_write_failed->store(true);
+        sse::logger::logger()->error(
+            "Unable to sync {}. Error: {}", m_filename, strerror(errno));
+    }
+
     if (*m_write_failed) {
         sse::logger::logger()->error(
             "Unable to commit {}: some elements could not be written",
-- 
2.43.0


From 088b7557e292f80b4c8ca96a70c70813f7934843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:08 +0000
Subject: [PATCH 12/50] fix: do not take reserved space for elements of a
 vector

reserve extends the file, whose size gives the number of elements when the
vector is reopened: unused reserved space became extra elements.
---
 lib/include/sse/schemes/abstractio/awonvm_vector.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/lib/include/sse/schemes/abstractio/awonvm_vector.hpp b/lib/include/sse/schemes/abstractio/awonvm_vector.hpp
index b761df2..19d972e 100644
--- a/lib/include/sse/schemes/abstractio/awonvm_vector.hpp
+++ b/lib/include/sse/schemes/abstractio/awonvm_vector.hpp
@@ -335,6 +335,13 @@ void awonvm_vector<T, ALIGNMENT>::commit() noexcept
                         // future async read queries
     }
 
+    // drop the space which was reserved but not used
+    if (!*m_write_failed && ftruncate(m_fd, m_size * sizeof(T)) != 0) {
+        m_write_failed->store(true);
+        sse::logger::logger()->error(
+            "Unable to truncate {}. Error: {}", m_filename, strerror(errno));
+    }
+
     // the completed writes are not durable before this point
     if (!*m_write_failed && fsync(m_fd) != 0) {
         m_write_failed->store(true);
-- 
2.43.0


From 35a4bf2eb51f3e6714fd2e878e22f62dad166e6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:19 +0000
Subject: [PATCH 13/50] fix: do not terminate when the read scheduler of a
 vector cannot be created

commit is noexcept: a failure to create the kernel's IO context (they are a
limited resource) killed the process.
---
 .../sse/schemes/abstractio/awonvm_vector.hpp  | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/lib/include/sse/schemes/abstractio/awonvm_vector.hpp b/lib/include/sse/schemes/abstractio/awonvm_vector.hpp
index 19d972e..f2ec272 100644
--- a/lib/include/sse/schemes/abstractio/awonvm_vector.hpp
+++ b/lib/include/sse/schemes/abstractio/awonvm_vector.hpp
@@ -328,11 +328,20 @@ void awonvm_vector<T, ALIGNMENT>::commit() noexcept
 
     if (m_io_scheduler) {
         m_io_scheduler->wait_completions();
-        Scheduler* new_sched = m_io_scheduler->duplicate();
-        m_io_scheduler.reset(
-            new_sched); // this will block until the completion of write
-                        // queries and then create a new scheduler for
-                        // future async read queries
+        try {
+            Scheduler* new_sched = m_io_scheduler->duplicate();
+            m_io_scheduler.reset(
+                new_sched); // this will block until the completion of write
+                            // queries and then create a new scheduler for
+                            // future async read queries
+        } catch (const std::exception& e) {
+            // async read queries will be refused
+            sse::logger::logger()->error(
+                "Unable to create an IO scheduler for {}: {}",
+                m_filename,
+                e.what());
+            m_io_scheduler.reset();
+        }
     }
 
     // drop the space which was reserved but not used
-- 
2.43.0


From 9c7cb842c516f6911d7f908e4197ec6ad53c889a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:22 +0000
Subject: [PATCH 14/50] fix: forget the previous connected components when they
 are computed again

---
 lib/tethys/tethys_graph.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/lib/tethys/tethys_graph.cpp b/lib/tethys/tethys_graph.cpp
index 1fee707..f3bc0d3 100644
--- a/lib/tethys/tethys_graph.cpp
+++ b/lib/tethys/tethys_graph.cpp
@@ -325,6 +325,11 @@ std::vector<EdgePtr> TethysGraph::find_source_sink_path(const size_t component,
 
 void TethysGraph::compute_connected_components()
 {
+    // forget the result of a previous computation
+    for (size_t vi = 0; vi < vertices.size(); vi++) {
+        vertices[VertexPtr(vi)].component = 0;
+    }
+
     size_t component_index = 1;
     size_t max_size        = 1;
     for (size_t vi = 0; vi < vertices.size(); vi++) {
@@ -405,6 +410,13 @@ void TethysGraph::compute_residual_maxflow()
             "Invalid inner state. State should be Building.");
     }
 
+    // all the vertices are processed at once, even if the connected components
+    // have already been computed
+    for (size_t vi = 0; vi < vertices.size(); vi++) {
+        vertices[VertexPtr(vi)].component = 0;
+    }
+    n_components = 0;
+
     size_t computed_capacity = 0;
     size_t it                = 0;
 
-- 
2.43.0


From d38ab23da6ad27ae707b810b70ddf1cab4bb6005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:28 +0000
Subject: [PATCH 15/50] fix: do not report as removed a directory that could
 not be examined

---
 lib/utils/utils.cpp | 30 +++++++++++++++++++++++-------
 1 file changed, 23 insertions(+), 7 deletions(-)

diff --git a/lib/utils/utils.cpp b/lib/utils/utils.cpp
index 440eac5..7575576 100644
--- a/lib/utils/utils.cpp
+++ b/lib/utils/utils.cpp
@@ -65,7 +65,11 @@ bool create_directory(const std::string& path, mode_t mode)
 // https://stackoverflow.com/a/27808574
 bool remove_directory(const std::string& path)
 {
-    if (!exists(path)) {
+    // only consider that there is nothing to remove when this is certain: do not
+    // mistake a failure, or a dangling link, for an absent directory
+    struct stat sb;
+    if (lstat(path.c_str(), &sb) != 0
+        && (errno == ENOENT || errno == ENOTDIR)) {
         return true;
     }
 
@@ -96,7 +100,7 @@ bool remove_directory(const std::string& path)
 
     FTSENT* curr;
 
-    while ((curr = fts_read(ftsp)) != nullptr) {
+    while (errno = 0, (curr = fts_read(ftsp)) != nullptr) {
         switch (curr->fts_info) {
         case FTS_NS:
         case FTS_DNR:
@@ -146,6 +150,17 @@ bool remove_directory(const std::string& path)
         }
     }
 
+    // fts_read sets errno to 0 once the whole hierarchy has been visited
+    if (errno != 0) {
+        std::string message = "When deleting directory " + path;
+        message += ": fts_read error: ";
+        message += strerror(errno);
+
+        fts_close(ftsp);
+
+        throw std::runtime_error(message);
+    }
+
     fts_close(ftsp);
 
     return true;
@@ -253,8 +268,9 @@ size_t device_page_size(int fd)
 {
     struct statvfs stats;
 
-
-    fstatvfs(fd, &stats);
+    if (fstatvfs(fd, &stats) != 0) {
+        return 0;
+    }
 #if __APPLE__
     return stats.f_frsize;
 #else
@@ -269,9 +285,9 @@ size_t device_page_size(const std::string& path)
     }
     struct statvfs stats;
 
-
-    statvfs(path.c_str(), &stats);
-
+    if (statvfs(path.c_str(), &stats) != 0) {
+        return 0;
+    }
 
     return stats.f_bsize;
 }
-- 
2.43.0


From f3510d143b85042371d564372eeb00b5958c84cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:40 +0000
Subject: [PATCH 16/50] fix: keep a vector usable when its access mode cannot
 be switched

---
 .../sse/schemes/abstractio/awonvm_vector.hpp  | 27 ++++++++++++-------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/lib/include/sse/schemes/abstractio/awonvm_vector.hpp b/lib/include/sse/schemes/abstractio/awonvm_vector.hpp
index f2ec272..8f32e20 100644
--- a/lib/include/sse/schemes/abstractio/awonvm_vector.hpp
+++ b/lib/include/sse/schemes/abstractio/awonvm_vector.hpp
@@ -378,19 +378,28 @@ template<typename T, size_t ALIGNMENT>
 void awonvm_vector<T, ALIGNMENT>::set_use_direct_access(bool flag)
 {
     if (flag != m_use_direct_io) {
-        // wait for unfinished async IOs
-        m_io_scheduler->wait_completions();
+        // open a new file descriptor and create a new async scheduler: nothing
+        // is changed if one of these fails
+        int                        new_fd = utility::open_fd(m_filename, flag);
+        std::unique_ptr<Scheduler> new_sched;
 
-        // close the current file descriptor
-        close(m_fd);
+        if (m_io_scheduler) {
+            try {
+                new_sched.reset(m_io_scheduler->duplicate());
+            } catch (...) {
+                close(new_fd);
+                throw;
+            }
 
-        // reopen a file descriptor
-        m_fd = utility::open_fd(m_filename, flag);
+            // wait for unfinished async IOs
+            m_io_scheduler->wait_completions();
+        }
 
+        // close the current file descriptor
+        close(m_fd);
 
-        // recreate an async scheduler
-        Scheduler* new_sched = m_io_scheduler->duplicate();
-        m_io_scheduler.reset(new_sched);
+        m_fd           = new_fd;
+        m_io_scheduler = std::move(new_sched);
 
         m_use_direct_io = flag;
         m_io_warn_flag  = false;
-- 
2.43.0


From cd308b95a4506b7efdcc968c0c1228d09942b1e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:50 +0000
Subject: [PATCH 17/50] fix: make the updates of a keyword counter atomic

Two concurrent calls of RocksDBCounter::get_and_increment on one key could
both read the same value and return it.
---
 lib/include/sse/schemes/utils/rocksdb_wrapper.hpp | 3 +++
 lib/utils/rocksdb_wrapper.cpp                     | 8 ++++++++
 2 files changed, 11 insertions(+)

diff --git a/lib/include/sse/schemes/utils/rocksdb_wrapper.hpp b/lib/include/sse/schemes/utils/rocksdb_wrapper.hpp
index fcc99d4..736eb97 100644
--- a/lib/include/sse/schemes/utils/rocksdb_wrapper.hpp
+++ b/lib/include/sse/schemes/utils/rocksdb_wrapper.hpp
@@ -31,6 +31,7 @@
 #include <iostream>
 #include <list>
 #include <memory>
+#include <mutex>
 
 namespace sse {
 namespace sophos {
@@ -279,6 +280,8 @@ public:
 
 private:
     rocksdb::DB* db_;
+    // makes the updates (read, modify, write) atomic
+    std::mutex update_mutex_;
 };
 
 
diff --git a/lib/utils/rocksdb_wrapper.cpp b/lib/utils/rocksdb_wrapper.cpp
index 8661718..f10477c 100644
--- a/lib/utils/rocksdb_wrapper.cpp
+++ b/lib/utils/rocksdb_wrapper.cpp
@@ -100,6 +100,8 @@ bool RocksDBCounter::get(const std::string& key, uint32_t& val) const
 
 bool RocksDBCounter::get_and_increment(const std::string& key, uint32_t& val)
 {
+    std::lock_guard<std::mutex> lock(update_mutex_);
+
     std::string data;
 
     rocksdb::Status s = db_->Get(rocksdb::ReadOptions(), key, &data);
@@ -133,6 +135,8 @@ bool RocksDBCounter::get_and_increment(const std::string& key, uint32_t& val)
 
 bool RocksDBCounter::increment(const std::string& key, uint32_t default_value)
 {
+    std::lock_guard<std::mutex> lock(update_mutex_);
+
     std::string data;
     uint32_t    val;
 
@@ -165,6 +169,8 @@ bool RocksDBCounter::increment(const std::string& key, uint32_t default_value)
 
 bool RocksDBCounter::set(const std::string& key, uint32_t val)
 {
+    std::lock_guard<std::mutex> lock(update_mutex_);
+
     rocksdb::Slice k_v(reinterpret_cast<const char*>(&val), sizeof(uint32_t));
 
     rocksdb::Status s = db_->Put(rocksdb::WriteOptions(), key, k_v);
@@ -184,6 +190,8 @@ bool RocksDBCounter::set(const std::string& key, uint32_t val)
 
 bool RocksDBCounter::remove_key(const std::string& key)
 {
+    std::lock_guard<std::mutex> lock(update_mutex_);
+
     rocksdb::Status s = db_->Delete(rocksdb::WriteOptions(), key);
 
     return s.ok();
-- 
2.43.0


From cdd961ab5fe7657bf9c6333bc14482cb06f6eed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:38 +0000
Subject: [PATCH 18/50] fix: do not restart a keyword counter that could not be
 read

RocksDBCounter::get_and_increment and increment took every failed read for
a missing key, and so set the counter back to its initial value.
---
 lib/utils/rocksdb_wrapper.cpp | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/lib/utils/rocksdb_wrapper.cpp b/lib/utils/rocksdb_wrapper.cpp
index f10477c..b015202 100644
--- a/lib/utils/rocksdb_wrapper.cpp
+++ b/lib/utils/rocksdb_wrapper.cpp
@@ -113,8 +113,15 @@ bool RocksDBCounter::get_and_increment(const std::string& key, uint32_t& val)
         ::memcpy(&val, data.data(), sizeof(uint32_t));
 
         val++;
-    } else {
+    } else if (s.IsNotFound()) {
         val = 0;
+    } else {
+        /* LCOV_EXCL_START */
+        logger::logger()->error("Unable to read the counter\nkey="
+                                + utility::hex_string(key)
+                                + "\nRocksdb status: " + s.ToString());
+        return false;
+        /* LCOV_EXCL_STOP */
     }
 
     rocksdb::Slice k_v(reinterpret_cast<const char*>(&val), sizeof(uint32_t));
@@ -147,8 +154,15 @@ bool RocksDBCounter::increment(const std::string& key, uint32_t default_value)
         ::memcpy(&val, data.data(), sizeof(uint32_t));
 
         val++;
-    } else {
+    } else if (s.IsNotFound()) {
         val = default_value;
+    } else {
+        /* LCOV_EXCL_START */
+        logger::logger()->error("Unable to read the counter\nkey="
+                                + utility::hex_string(key)
+                                + "\nRocksdb status: " + s.ToString());
+        return false;
+        /* LCOV_EXCL_STOP */
     }
 
     rocksdb::Slice k_v(reinterpret_cast<const char*>(&val), sizeof(uint32_t));
-- 
2.43.0


From 77b4c01611761aeeba7a5cb9dce14d566fd5959e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:13 +0000
Subject: [PATCH 19/50] fix: Sophos parallel searches with more threads than
 the TDP pool has powers

The RSA threads evaluate the thread_count-th power of the trapdoor
permutation, which the pool (2 * hardware_concurrency() powers) does not
have when more threads are asked for: the evaluation threw in the thread
and the process was terminated. Never use more threads than powers.
---
 lib/sophos/sophos_server.cpp | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/lib/sophos/sophos_server.cpp b/lib/sophos/sophos_server.cpp
index 832df6d..a00412c 100644
--- a/lib/sophos/sophos_server.cpp
+++ b/lib/sophos/sophos_server.cpp
@@ -30,11 +30,23 @@
 namespace sse {
 namespace sophos {
 
+// Number of powers of the trapdoor permutation the server can evaluate
+static uint8_t tdp_pool_size()
+{
+    return static_cast<uint8_t>(std::min(
+        std::max(2 * std::thread::hardware_concurrency(), 4U), 255U));
+}
+
+// Threads evaluating the permutation jump over each other's tokens: there
+// cannot be more of them than powers of the permutation in the pool.
+static unsigned rsa_threads_count(unsigned requested_count)
+{
+    return std::min<unsigned>(requested_count, tdp_pool_size());
+}
 
 SophosServer::SophosServer(const std::string& db_path,
                            const std::string& tdp_pk)
-    : edb_(db_path),
-      public_tdp_(tdp_pk, 2 * std::thread::hardware_concurrency())
+    : edb_(db_path), public_tdp_(tdp_pk, tdp_pool_size())
 {
 }
 
@@ -206,8 +218,8 @@ std::list<index_type> SophosServer::search_parallel(SearchRequest& req,
     std::vector<std::thread> rsa_threads;
 
     // use at least two threads to make the RSA computations
-    unsigned n_rsa_threads
-        = std::max<unsigned>(std::thread::hardware_concurrency(), 2);
+    unsigned n_rsa_threads = rsa_threads_count(
+        std::max<unsigned>(std::thread::hardware_concurrency(), 2));
 
     for (unsigned t = 0; t < n_rsa_threads; t++) {
         rsa_threads.emplace_back(rsa_job, t, req.add_count, n_rsa_threads);
@@ -298,6 +310,8 @@ std::list<index_type> SophosServer::search_parallel_light(SearchRequest& req,
     //    unsigned n_threads =
     //    std::thread::hardware_concurrency()-access_threads;
 
+    thread_count = rsa_threads_count(thread_count);
+
     for (uint8_t t = 0; t < thread_count; t++) {
         rsa_threads.emplace_back(job, t, req.add_count, thread_count);
     }
@@ -387,6 +401,8 @@ void SophosServer::search_parallel_callback(
     //    unsigned n_threads =
     //    std::thread::hardware_concurrency()-access_threads;
 
+    rsa_thread_count = rsa_threads_count(rsa_thread_count);
+
     for (uint8_t t = 0; t < rsa_thread_count; t++) {
         rsa_threads.emplace_back(rsa_job, t, req.add_count, rsa_thread_count);
     }
@@ -472,6 +488,8 @@ void SophosServer::search_parallel_light_callback(
     //    unsigned n_threads =
     //    std::thread::hardware_concurrency()-access_threads;
 
+    thread_count = rsa_threads_count(thread_count);
+
     for (uint8_t t = 0; t < thread_count; t++) {
         rsa_threads.emplace_back(job, t, req.add_count, thread_count);
     }
-- 
2.43.0


From 0c23eeb993b640ff69030171942c028c354a48bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:49 +0000
Subject: [PATCH 20/50] fix: do not return entries which do not exist in
 Diana's vector of results

Entries deleted by a previous search (or never stored) left a
value-initialised element in the results: a document nobody inserted.
---
 .../sse/schemes/diana/diana_server.hpp        | 21 +++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/lib/include/sse/schemes/diana/diana_server.hpp b/lib/include/sse/schemes/diana/diana_server.hpp
index 0fd4f7e..0ba1315 100644
--- a/lib/include/sse/schemes/diana/diana_server.hpp
+++ b/lib/include/sse/schemes/diana/diana_server.hpp
@@ -223,20 +223,29 @@ void DianaServer<T>::search_parallel(const SearchRequest&     req,
                                      std::vector<index_type>& results,
                                      bool                     delete_results)
 {
-    if (results.size() < req.add_count) {
-        // resize the vector if needed
-        results.resize(req.add_count);
-    }
+    results.resize(req.add_count);
 
+    // some of the entries might not be in the database (e.g. because a previous
+    // search deleted them): do not return anything for these
+    std::vector<uint8_t> found(req.add_count, 0);
 
-    auto callback = [&results](size_t i, index_type res, uint8_t
-                               /*thread_id*/) {
+    auto callback = [&results, &found](size_t i, index_type res, uint8_t
+                                       /*thread_id*/) {
         if (__builtin_expect(i < results.size(), 1)) {
             results[i] = res;
+            found[i]   = 1;
         }
     };
 
     search_parallel(req, callback, threads_count, delete_results);
+
+    size_t results_count = 0;
+    for (size_t i = 0; i < found.size(); i++) {
+        if (found[i] != 0) {
+            results[results_count++] = results[i];
+        }
+    }
+    results.resize(results_count);
 }
 
 template<typename T>
-- 
2.43.0


From 667d8084e3eebef92e76432bf5511f325c1f025d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:49 +0000
Subject: [PATCH 21/50] fix: report the insertions that the database of the
 server refuses

Sophos and Diana servers ignored the failure and acknowledged the
insertion.
---
 lib/include/sse/schemes/diana/diana_server.hpp | 6 +++++-
 lib/sophos/sophos_server.cpp                   | 4 +++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/lib/include/sse/schemes/diana/diana_server.hpp b/lib/include/sse/schemes/diana/diana_server.hpp
index 0ba1315..b8edeb4 100644
--- a/lib/include/sse/schemes/diana/diana_server.hpp
+++ b/lib/include/sse/schemes/diana/diana_server.hpp
@@ -28,6 +28,8 @@
 
 #include <sse/crypto/prf.hpp>
 
+#include <stdexcept>
+
 namespace sse {
 namespace diana {
 
@@ -328,7 +330,9 @@ void DianaServer<T>::insert(const UpdateRequest<T>& req)
                             + utility::hex_string(req.token) + ", "
                             + utility::hex_string(req.index) + ")");
 
-    edb_.put(req.token, req.index);
+    if (!edb_.put(req.token, req.index)) {
+        throw std::runtime_error("Unable to insert the entry in the database");
+    }
 }
 
 template<typename T>
diff --git a/lib/sophos/sophos_server.cpp b/lib/sophos/sophos_server.cpp
index a00412c..ad96140 100644
--- a/lib/sophos/sophos_server.cpp
+++ b/lib/sophos/sophos_server.cpp
@@ -505,7 +505,9 @@ void SophosServer::insert(const UpdateRequest& req)
                             + utility::hex_string(req.index) + ")");
 
     //    edb_.add(req.token, req.index);
-    edb_.put(req.token, req.index);
+    if (!edb_.put(req.token, req.index)) {
+        throw std::runtime_error("Unable to insert the entry in the database");
+    }
 }
 } // namespace sophos
 } // namespace sse
-- 
2.43.0


From 366ae90a3f43b29d1deb75cddb51c8401f0199b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:49 +0000
Subject: [PATCH 22/50] fix: give each deletion of a Janus keyword its own
 puncture

DianaClient::get_match_count returned the counter, that is one less than
the number of entries (and 0 for both no and one entry): the first two
deletions between two searches used the same puncture number, and the
server decrypted garbage.
---
 lib/include/sse/schemes/diana/diana_client.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/include/sse/schemes/diana/diana_client.hpp b/lib/include/sse/schemes/diana/diana_client.hpp
index ec3d036..42971f3 100644
--- a/lib/include/sse/schemes/diana/diana_client.hpp
+++ b/lib/include/sse/schemes/diana/diana_client.hpp
@@ -126,7 +126,8 @@ uint32_t DianaClient<T>::get_match_count(const std::string& kw) const
 
     bool found = counter_map_.get(kw, kw_counter);
 
-    return (found) ? kw_counter : 0;
+    // the counter of a keyword with n entries is n-1
+    return (found) ? kw_counter + 1 : 0;
 }
 
 template<typename T>
-- 
2.43.0


From 56249280a3114f60eb44de159d153d07741dcaaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:29 +0000
Subject: [PATCH 23/50] fix: Tethys: an empty list hid the lists encoded after
 it in its bucket

---
 lib/include/sse/schemes/tethys/encoders/encode_separate.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/include/sse/schemes/tethys/encoders/encode_separate.hpp b/lib/include/sse/schemes/tethys/encoders/encode_separate.hpp
index 35237fa..b1c2189 100644
--- a/lib/include/sse/schemes/tethys/encoders/encode_separate.hpp
+++ b/lib/include/sse/schemes/tethys/encoders/encode_separate.hpp
@@ -78,6 +78,12 @@ struct EncodeSeparateEncoder
         // spilled control values
         encoded_list_size = std::min(encoded_list_size, original_list_size);
 
+        // there is nothing to encode for an empty list, whose (null) length
+        // would be taken for the end of the bucket
+        if (encoded_list_size == 0) {
+            return 0;
+        }
+
         auto sublist_begin = values.begin();
         auto sublist_end   = values.end();
         // size_t sublist_begin = 0;
-- 
2.43.0


From f2bcd256ad04ed4c0a4c0e0385df7057f46dbdd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:01 +0000
Subject: [PATCH 24/50] fix: Tethys: asynchronous lookups used buckets that
 could not be read, or not read yet

---
 .../sse/schemes/tethys/tethys_store.hpp       | 61 +++++++++++--------
 1 file changed, 37 insertions(+), 24 deletions(-)

diff --git a/lib/include/sse/schemes/tethys/tethys_store.hpp b/lib/include/sse/schemes/tethys/tethys_store.hpp
index 7858920..b31dd48 100644
--- a/lib/include/sse/schemes/tethys/tethys_store.hpp
+++ b/lib/include/sse/schemes/tethys/tethys_store.hpp
@@ -334,43 +334,56 @@ void TethysStore<PAGE_SIZE, Key, T, TethysHasher, ValueDecoder>::
 {
     auto bucket_cb = [this, callback, state](
                          std::unique_ptr<payload_type> bucket, size_t index) {
-        uint8_t completed = state->completion_counter.fetch_add(1) + 1;
-
-        if (completed == 1) {
+        // store the bucket before declaring it as fetched: the two callbacks
+        // might run at the same time
+        if (index < table_size / 2) {
             state->index_0  = index;
             state->bucket_0 = std::move(bucket);
-        } else if (completed == 2) {
+        } else {
             state->index_1  = index;
             state->bucket_1 = std::move(bucket);
+        }
 
+        uint8_t completed = state->completion_counter.fetch_add(1) + 1;
 
-            std::vector<T> stash_res;
-
-            auto stash_it = stash.find(state->key);
-
-            if (stash_it != stash.end()) {
-                stash_res = stash_it->second;
+        if (completed == 2) {
+            std::vector<T> bucket_res;
+
+            if (state->bucket_0 && state->bucket_1) {
+                bucket_res = this->decode_list(state->key,
+                                               state->get_decoder(),
+                                               *(state->bucket_0),
+                                               state->index_0,
+                                               *(state->bucket_1),
+                                               state->index_1);
+
+                auto stash_it = stash.find(state->key);
+
+                if (stash_it != stash.end()) {
+                    const std::vector<T>& stash_res = stash_it->second;
+
+                    bucket_res.reserve(bucket_res.size() + stash_res.size());
+                    bucket_res.insert(
+                        bucket_res.end(), stash_res.begin(), stash_res.end());
+                }
+            } else {
+                // do not return a part of the list
+                logger::logger()->error(
+                    "Tethys store: unable to read a bucket");
             }
 
-            std::vector<T> bucket_res = this->decode_list(state->key,
-                                                          state->get_decoder(),
-                                                          *(state->bucket_0),
-                                                          state->index_0,
-                                                          *(state->bucket_1),
-                                                          state->index_1);
-
-            bucket_res.reserve(bucket_res.size() + stash_res.size());
-            bucket_res.insert(
-                bucket_res.end(), stash_res.begin(), stash_res.end());
-
-
             delete state;
             callback(bucket_res);
         }
     };
 
-
-    async_get_buckets(state->key, bucket_cb);
+    try {
+        async_get_buckets(state->key, bucket_cb);
+    } catch (...) {
+        // no bucket will be fetched
+        delete state;
+        throw;
+    }
 }
 template<size_t PAGE_SIZE,
          class Key,
-- 
2.43.0


From 1d8c2c2fee1072b9c328cb94822a1786da5085e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:01 +0000
Subject: [PATCH 25/50] fix: Tethys: the stash was destroyed before the pending
 lookups completed

---
 lib/include/sse/schemes/tethys/tethys_store.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/include/sse/schemes/tethys/tethys_store.hpp b/lib/include/sse/schemes/tethys/tethys_store.hpp
index b31dd48..3d2fcf9 100644
--- a/lib/include/sse/schemes/tethys/tethys_store.hpp
+++ b/lib/include/sse/schemes/tethys/tethys_store.hpp
@@ -107,10 +107,13 @@ private:
                                CallbackState*         state);
 
     using table_type = abstractio::awonvm_vector<payload_type, PAGE_SIZE>;
-    table_type table;
 
     size_t                        table_size;
     std::map<Key, std::vector<T>> stash;
+
+    // keep this member last: its destructor waits for the pending lookups, which
+    // use the other ones
+    table_type table;
 };
 
 template<size_t PAGE_SIZE,
-- 
2.43.0


From 17d5e7c9c0429cdc939ab5d4070ae49b5c1bd202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:35 +0000
Subject: [PATCH 26/50] fix: Tethys: errors when writing or reading the stash
 or committing the table were ignored

---
 lib/include/sse/schemes/abstractio/kv_serializer.hpp | 12 ++++++++++++
 .../sse/schemes/tethys/tethys_store_builder.hpp      |  7 +++++++
 2 files changed, 19 insertions(+)

diff --git a/lib/include/sse/schemes/abstractio/kv_serializer.hpp b/lib/include/sse/schemes/abstractio/kv_serializer.hpp
index 3941647..d241614 100644
--- a/lib/include/sse/schemes/abstractio/kv_serializer.hpp
+++ b/lib/include/sse/schemes/abstractio/kv_serializer.hpp
@@ -4,6 +4,7 @@
 #include <istream>
 #include <map>
 #include <ostream>
+#include <stdexcept>
 
 namespace sse {
 namespace abstractio {
@@ -80,8 +81,19 @@ void deserialize(std::istream&                   input_stream,
 {
     while (input_stream && input_stream.peek() != EOF) {
         std::pair<Key, T> kv = deserializer.deserialize_key_value(input_stream);
+
+        if (!input_stream) {
+            // do not return a truncated pair
+            break;
+        }
         callback(std::move(kv.first), std::move(kv.second));
     }
+
+    // reaching the end of the stream is not a failure
+    if (input_stream.fail()) {
+        throw std::runtime_error(
+            "Unable to read all the key-value pairs of a stream");
+    }
 }
 template<class Key, class T, class InnerDeserializer>
 void deserialize(std::istream&                   input_stream,
diff --git a/lib/include/sse/schemes/tethys/tethys_store_builder.hpp b/lib/include/sse/schemes/tethys/tethys_store_builder.hpp
index 077e00e..53137a7 100644
--- a/lib/include/sse/schemes/tethys/tethys_store_builder.hpp
+++ b/lib/include/sse/schemes/tethys/tethys_store_builder.hpp
@@ -273,6 +273,9 @@ void TethysStoreBuilder<PAGE_SIZE,
     // commit the table
     tethys_table.commit();
 
+    if (!tethys_table.is_committed()) {
+        throw std::runtime_error("Unable to commit the Tethys table");
+    }
 
     // now, we have to take care of the stash
     if (allocator.get_stashed_edges().size() > 0) {
@@ -301,6 +304,10 @@ void TethysStoreBuilder<PAGE_SIZE,
 
 
         stash_file.close();
+
+        if (!stash_file) {
+            throw std::runtime_error("Unable to write the Tethys stash");
+        }
     }
 
     encoder.finish_tethys_encoding();
-- 
2.43.0


From e7db865996a19911a512b0a3a78470d18a31d606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:15 +0000
Subject: [PATCH 27/50] fix: Tethys: a number of blocks which could not be
 stored was ignored

---
 lib/include/sse/schemes/tethys/tethys_builder.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/include/sse/schemes/tethys/tethys_builder.hpp b/lib/include/sse/schemes/tethys/tethys_builder.hpp
index e3c417d..5bb2e1c 100644
--- a/lib/include/sse/schemes/tethys/tethys_builder.hpp
+++ b/lib/include/sse/schemes/tethys/tethys_builder.hpp
@@ -121,7 +121,11 @@ void GenericTethysBuilder<StoreBuilder>::insert_list(
     // add the block counter to the counter db
     // this represents the number of blocks in the db (hence the +1)
     // counter_db.set(keyword, counter);
-    counter_db.set(keyword, block_counter + 1);
+    if (!counter_db.set(keyword, block_counter + 1)) {
+        throw std::runtime_error("Unable to store the number of blocks of "
+                                 "keyword \""
+                                 + keyword + "\"");
+    }
 }
 } // namespace details
 
-- 
2.43.0


From 86031c09f35d40208b3623c1c60bafdf3af24afd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:22 +0000
Subject: [PATCH 28/50] fix: a cuckoo table without the elements which did not
 fit or could not be written was committed

---
 lib/include/sse/schemes/oceanus/cuckoo.hpp  | 38 +++++++++++++++++++--
 lib/include/sse/schemes/oceanus/oceanus.hpp |  2 +-
 lib/include/sse/schemes/utils/utils.hpp     |  2 ++
 lib/utils/utils.cpp                         | 22 ++++++++++++
 4 files changed, 60 insertions(+), 4 deletions(-)

diff --git a/lib/include/sse/schemes/oceanus/cuckoo.hpp b/lib/include/sse/schemes/oceanus/cuckoo.hpp
index 11841d3..8cfbb07 100644
--- a/lib/include/sse/schemes/oceanus/cuckoo.hpp
+++ b/lib/include/sse/schemes/oceanus/cuckoo.hpp
@@ -2,6 +2,7 @@
 
 #include <sse/schemes/abstractio/awonvm_vector.hpp>
 #include <sse/schemes/oceanus/details/cuckoo.hpp>
+#include <sse/schemes/utils/logger.hpp>
 // NOLINTNEXTLINE
 #include <sse/schemes/utils/optional.hpp>
 #include <sse/schemes/utils/utils.hpp>
@@ -132,8 +133,10 @@ template<size_t PAGE_SIZE,
 CuckooBuilder<PAGE_SIZE, Key, T, KeySerializer, ValueSerializer, CuckooHasher>::
     ~CuckooBuilder()
 {
-    if (!is_committed) {
+    try {
         commit();
+    } catch (const std::exception& e) {
+        logger::logger()->error(e.what());
     }
 }
 
@@ -194,15 +197,36 @@ void CuckooBuilder<PAGE_SIZE,
         return;
     }
 
-    is_committed = true;
+    // some elements have no place in the table
+    if (!spilled_data.empty()) {
+        throw std::runtime_error("Unable to commit the Cuckoo table: "
+                                 + std::to_string(spilled_data.size())
+                                 + " elements do not fit");
+    }
 
     // commit the data file
     data.commit();
 
+    if (!data.is_committed()) {
+        throw std::runtime_error("Unable to commit the Cuckoo table: some "
+                                 "elements could not be written");
+    }
+
+    if (utility::is_file(params.cuckoo_table_path)) {
+        throw std::runtime_error("Unable to commit the Cuckoo table: "
+                                 + params.cuckoo_table_path
+                                 + " already exists");
+    }
+
+    // an incomplete table must not be taken for a committed one: it gets its
+    // name once it is complete
+    const std::string partial_path = params.cuckoo_table_path + ".partial";
+    utility::remove_file(partial_path);
+
     // create two new files: one per table
 
     abstractio::awonvm_vector<payload_type, PAGE_SIZE> cuckoo_table(
-        params.cuckoo_table_path);
+        partial_path);
 
     // abstractio::awonvm_vector<payload_type, PAGE_SIZE> table_1(
     //     params.table_1_path);
@@ -238,6 +262,14 @@ void CuckooBuilder<PAGE_SIZE,
     }
     cuckoo_table.commit();
 
+    if (!cuckoo_table.is_committed()
+        || !utility::rename_file(partial_path, params.cuckoo_table_path)) {
+        throw std::runtime_error(
+            "Unable to commit the Cuckoo table: it could not be written");
+    }
+
+    is_committed = true;
+
     // delete the data file
     utility::remove_file(params.value_file_path);
 }
diff --git a/lib/include/sse/schemes/oceanus/oceanus.hpp b/lib/include/sse/schemes/oceanus/oceanus.hpp
index 87d7f81..ba1d18e 100644
--- a/lib/include/sse/schemes/oceanus/oceanus.hpp
+++ b/lib/include/sse/schemes/oceanus/oceanus.hpp
@@ -143,7 +143,7 @@ OceanusBuilder<PAGE_SIZE>::OceanusBuilder(const std::string& db_path,
 template<size_t PAGE_SIZE>
 OceanusBuilder<PAGE_SIZE>::~OceanusBuilder()
 {
-    commit();
+    // the destructor of the cuckoo builder commits the table
 }
 
 
diff --git a/lib/include/sse/schemes/utils/utils.hpp b/lib/include/sse/schemes/utils/utils.hpp
index 2e86680..010bdd3 100644
--- a/lib/include/sse/schemes/utils/utils.hpp
+++ b/lib/include/sse/schemes/utils/utils.hpp
@@ -55,6 +55,8 @@ bool exists(const std::string& path);
 bool create_directory(const std::string& path, mode_t mode);
 bool remove_directory(const std::string& path);
 bool remove_file(const std::string& path);
+// when it returns true, the new name is durable
+bool rename_file(const std::string& from, const std::string& to);
 
 int     open_fd(const std::string& filename, bool direct_io);
 ssize_t file_size(int fd);
diff --git a/lib/utils/utils.cpp b/lib/utils/utils.cpp
index 7575576..7d68bff 100644
--- a/lib/utils/utils.cpp
+++ b/lib/utils/utils.cpp
@@ -22,6 +22,7 @@
 #include <sse/schemes/utils/utils.hpp>
 
 #include <cerrno>
+#include <cstdio>
 #include <cstring>
 #include <fcntl.h>
 #include <fts.h>
@@ -172,6 +173,27 @@ bool remove_file(const std::string& path)
     return unlink(path.c_str()) == 0;
 }
 
+bool rename_file(const std::string& from, const std::string& to)
+{
+    if (rename(from.c_str(), to.c_str()) != 0) {
+        return false;
+    }
+
+    const size_t      pos = to.find_last_of('/');
+    const std::string dir
+        = (pos == std::string::npos) ? "." : to.substr(0, pos + 1);
+
+    int fd = open(dir.c_str(), O_RDONLY);
+    if (fd == -1) {
+        return false;
+    }
+
+    bool synced = (fsync(fd) == 0);
+    close(fd);
+
+    return synced;
+}
+
 int open_fd(const std::string& filename, bool direct_io)
 {
     int flags = (O_CREAT | O_RDWR);
-- 
2.43.0


From 3f7fd12bdbe19e4a411e41b77b1dba34baa4c273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:49 +0000
Subject: [PATCH 29/50] fix: lookups in Oceanus could use the descriptor closed
 by the first asynchronous one

---
 lib/include/sse/schemes/oceanus/oceanus.hpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/lib/include/sse/schemes/oceanus/oceanus.hpp b/lib/include/sse/schemes/oceanus/oceanus.hpp
index ba1d18e..ee3e6c0 100644
--- a/lib/include/sse/schemes/oceanus/oceanus.hpp
+++ b/lib/include/sse/schemes/oceanus/oceanus.hpp
@@ -7,6 +7,8 @@
 #include <exception>
 #include <future>
 #include <list>
+#include <mutex>
+#include <shared_mutex>
 
 
 // Oceanus is a wrapper around a cuckoo table with parameters adapted for the
@@ -193,6 +195,9 @@ public:
         cuckoo_table;
 
 private:
+    // the descriptor and the scheduler of the table are replaced by the first
+    // asynchronous query: no other query can use them meanwhile
+    std::shared_timed_mutex access_mode_mutex;
 };
 
 template<size_t PAGE_SIZE>
@@ -213,6 +218,8 @@ data_type<PAGE_SIZE> Oceanus<PAGE_SIZE>::get(
     // std::vector<index_type> res;
 
 
+    std::shared_lock<std::shared_timed_mutex> lock(access_mode_mutex);
+
     // query the table
     content_type val = cuckoo_table.get(ht_key);
 
@@ -229,7 +236,10 @@ void Oceanus<PAGE_SIZE>::async_get(
     const std::array<uint8_t, kTableKeySize>& ht_key,
     get_callback_type                         callback)
 {
-    cuckoo_table.use_direct_IO(true);
+    {
+        std::lock_guard<std::shared_timed_mutex> lock(access_mode_mutex);
+        cuckoo_table.use_direct_IO(true);
+    }
 
     cuckoo_table.async_get(ht_key, callback);
 }
-- 
2.43.0


From cbe570b6efa63fbafb67d4333126a3bc84c1cfb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:16 +0000
Subject: [PATCH 30/50] fix: an empty slot of a cuckoo table was taken for the
 key made of 0xFF bytes

---
 lib/include/sse/schemes/oceanus/cuckoo.hpp         |  5 +++++
 lib/include/sse/schemes/oceanus/details/cuckoo.hpp | 14 +++++++++++++-
 2 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/lib/include/sse/schemes/oceanus/cuckoo.hpp b/lib/include/sse/schemes/oceanus/cuckoo.hpp
index 8cfbb07..8854b0a 100644
--- a/lib/include/sse/schemes/oceanus/cuckoo.hpp
+++ b/lib/include/sse/schemes/oceanus/cuckoo.hpp
@@ -168,6 +168,11 @@ void CuckooBuilder<PAGE_SIZE,
     key_serializer.serialize(key, payload.data());
     value_serializer.serialize(val, payload.data() + kKeySize);
 
+    if (details::is_empty_payload(payload)) {
+        throw std::invalid_argument(
+            "This element cannot be distinguished from an empty slot");
+    }
+
     size_t value_ptr = data.push_back(payload);
 
     CuckooKey cuckoo_key = hasher(key);
diff --git a/lib/include/sse/schemes/oceanus/details/cuckoo.hpp b/lib/include/sse/schemes/oceanus/details/cuckoo.hpp
index 3e9eedd..2d259eb 100644
--- a/lib/include/sse/schemes/oceanus/details/cuckoo.hpp
+++ b/lib/include/sse/schemes/oceanus/details/cuckoo.hpp
@@ -17,6 +17,18 @@ inline size_t cuckoo_table_size(size_t n_elements, double epsilon)
     return std::ceil((1. + epsilon / 2.) * n_elements);
 };
 
+// the slots of the table without element are filled with 0xFF
+template<size_t PAYLOAD_SIZE>
+bool is_empty_payload(const std::array<uint8_t, PAYLOAD_SIZE>& pl)
+{
+    for (uint8_t b : pl) {
+        if (b != 0xFF) {
+            return false;
+        }
+    }
+    return true;
+}
+
 template<size_t PAYLOAD_SIZE, size_t KEY_SIZE>
 bool match_key(const std::array<uint8_t, PAYLOAD_SIZE>& pl,
                const std::array<uint8_t, KEY_SIZE>&     key)
@@ -28,7 +40,7 @@ bool match_key(const std::array<uint8_t, PAYLOAD_SIZE>& pl,
             return false;
         }
     }
-    return true;
+    return !is_empty_payload(pl);
 }
 
 class CuckooAllocator
-- 
2.43.0


From 3536c31fcc62536585fd7df1837757c83a72d0b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:36 +0000
Subject: [PATCH 31/50] fix: the builder of a cuckoo table which was moved
 committed a second table

---
 lib/include/sse/schemes/oceanus/cuckoo.hpp | 29 +++++++++++++++++++---
 1 file changed, 26 insertions(+), 3 deletions(-)

diff --git a/lib/include/sse/schemes/oceanus/cuckoo.hpp b/lib/include/sse/schemes/oceanus/cuckoo.hpp
index 8854b0a..4c83a30 100644
--- a/lib/include/sse/schemes/oceanus/cuckoo.hpp
+++ b/lib/include/sse/schemes/oceanus/cuckoo.hpp
@@ -49,7 +49,7 @@ public:
     using param_type   = CuckooBuilderParam;
 
     explicit CuckooBuilder(CuckooBuilderParam p);
-    CuckooBuilder(CuckooBuilder&&) noexcept = default;
+    CuckooBuilder(CuckooBuilder&& builder) noexcept;
 
     ~CuckooBuilder();
 
@@ -124,6 +124,23 @@ CuckooBuilder<PAGE_SIZE, Key, T, KeySerializer, ValueSerializer, CuckooHasher>::
     data.reserve(params.max_n_elements);
 }
 
+template<size_t PAGE_SIZE,
+         class Key,
+         class T,
+         class KeySerializer,
+         class ValueSerializer,
+         class CuckooHasher>
+CuckooBuilder<PAGE_SIZE, Key, T, KeySerializer, ValueSerializer, CuckooHasher>::
+    CuckooBuilder(CuckooBuilder&& builder) noexcept
+    : params(std::move(builder.params)),
+      allocator(std::move(builder.allocator)), data(std::move(builder.data)),
+      spilled_data(std::move(builder.spilled_data)),
+      n_elements(builder.n_elements), is_committed(builder.is_committed)
+{
+    // nothing is left to be committed by the moved builder
+    builder.is_committed = true;
+}
+
 template<size_t PAGE_SIZE,
          class Key,
          class T,
@@ -484,8 +501,14 @@ void CuckooHashTable<PAGE_SIZE,
     // table.async_get(loc_0, inner_callback);
     // table.async_get(loc_1, inner_callback);
     using GetRequest = typename table_type::GetRequest;
-    table.async_gets(
-        {GetRequest(loc_0, inner_callback), GetRequest(loc_1, inner_callback)});
+    try {
+        table.async_gets({GetRequest(loc_0, inner_callback),
+                          GetRequest(loc_1, inner_callback)});
+    } catch (...) {
+        // the callbacks will not be called
+        delete state;
+        throw;
+    }
 }
 
 
-- 
2.43.0


From 52257d433eaa6c352281ddbaedb9527763041e49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:46 +0000
Subject: [PATCH 32/50] fix: Pluto: each full block in a cuckoo table was
 returned with four more documents

---
 lib/include/sse/schemes/pluto/types.hpp | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/lib/include/sse/schemes/pluto/types.hpp b/lib/include/sse/schemes/pluto/types.hpp
index ec3e435..bf46d8b 100644
--- a/lib/include/sse/schemes/pluto/types.hpp
+++ b/lib/include/sse/schemes/pluto/types.hpp
@@ -48,8 +48,14 @@ struct PlutoValueSerializer
     }
     void serialize(const value_type& value, uint8_t* buffer)
     {
-        assert(value.size() * sizeof(index_type) == serialization_length());
-        memcpy(buffer, value.data(), value.size() * sizeof(index_type));
+        static_assert(PlutoParams::kPlutoListLength
+                          <= PlutoParams::kCuckooListLength,
+                      "Block too large for the cuckoo table");
+        const size_t value_length = value.size() * sizeof(index_type);
+
+        memcpy(buffer, value.data(), value_length);
+        memset(
+            buffer + value_length, 0x00, serialization_length() - value_length);
     }
 
     value_type deserialize(const uint8_t* buffer)
@@ -106,7 +112,12 @@ struct DefaultPlutoParams
     static constexpr size_t kCuckooListLength
         = kPageSize / sizeof(index_type) - kCuckooKeyOverhead;
 
-    using ht_value_type   = std::array<index_type, kCuckooListLength>;
+    static constexpr size_t kPlutoListLength
+        = ((kCuckooListLength < kTethysMaxListLength) ? kCuckooListLength
+                                                      : kTethysMaxListLength);
+
+    // a value is a block, and has no other entries
+    using ht_value_type   = std::array<index_type, kPlutoListLength>;
     using ht_builder_type = oceanus::CuckooBuilder<
         kPageSize,
         tethys::tethys_core_key_type,
@@ -123,10 +134,6 @@ struct DefaultPlutoParams
         PlutoKeySerializer,
         PlutoValueSerializer<DefaultPlutoParams<kPageSize>>,
         PlutoCuckooHasher>;
-
-    static constexpr size_t kPlutoListLength
-        = ((kCuckooListLength < kTethysMaxListLength) ? kCuckooListLength
-                                                      : kTethysMaxListLength);
 };
 
 } // namespace pluto
-- 
2.43.0


From 4e6e6bb8d2286b80f1e0ea54eedd0257f91953a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:52 +0000
Subject: [PATCH 33/50] fix: Pluto: a database using RocksDB's cuckoo tables
 could not be opened

---
 lib/pluto/rocksdb_store.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/pluto/rocksdb_store.cpp b/lib/pluto/rocksdb_store.cpp
index 9694fe2..d5faf39 100644
--- a/lib/pluto/rocksdb_store.cpp
+++ b/lib/pluto/rocksdb_store.cpp
@@ -28,7 +28,8 @@ rocksdb::Options GenericRocksDBStoreParams::make_rocksdb_cuckoo_options()
     options.compaction_style = rocksdb::kCompactionStyleLevel;
     options.info_log_level   = rocksdb::InfoLogLevel::INFO_LEVEL;
 
-    // options.allow_mmap_reads                       = true;
+    // the cuckoo tables can only be read from the memory
+    options.allow_mmap_reads = true;
 
     options.allow_concurrent_memtable_write
         = options.memtable_factory->IsInsertConcurrentlySupported();
-- 
2.43.0


From 69dcdc1b662b286f36690e9b40ae74caa8e13db6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:17 +0000
Subject: [PATCH 34/50] fix: Pluto: building an empty database never ended

---
 lib/include/sse/schemes/pluto/pluto_builder.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/include/sse/schemes/pluto/pluto_builder.hpp b/lib/include/sse/schemes/pluto/pluto_builder.hpp
index 4475dce..371dffc 100644
--- a/lib/include/sse/schemes/pluto/pluto_builder.hpp
+++ b/lib/include/sse/schemes/pluto/pluto_builder.hpp
@@ -92,7 +92,8 @@ void PlutoBuilder<Params>::build()
     // for the security of the scheme, because we do not want to leak the
     // number of full blocks, we have to insert a dummy block in the hash
     // table
-    const size_t n_full_blocks = 1 + ((n_elts - 1) / Params::kPlutoListLength);
+    const size_t n_full_blocks
+        = (n_elts == 0) ? 1 : 1 + ((n_elts - 1) / Params::kPlutoListLength);
 
     typename Params::ht_value_type v = {0x00};
 
-- 
2.43.0


From dad0a2d2fdaff6ba413c670a46e3e579c9663f81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:46 +0000
Subject: [PATCH 35/50] fix: Pluto: errors of the RocksDB block store were
 taken for missing blocks, or ignored when committing

---
 lib/include/sse/schemes/pluto/rocksdb_store.hpp | 5 ++++-
 lib/pluto/rocksdb_store.cpp                     | 3 +++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/lib/include/sse/schemes/pluto/rocksdb_store.hpp b/lib/include/sse/schemes/pluto/rocksdb_store.hpp
index df9a861..20b39f6 100644
--- a/lib/include/sse/schemes/pluto/rocksdb_store.hpp
+++ b/lib/include/sse/schemes/pluto/rocksdb_store.hpp
@@ -76,8 +76,11 @@ std::array<index_type, N> GenericRocksDBStore::get(
 
     if (s.ok()) {
         ::memcpy(content.data(), value.data(), N * sizeof(index_type));
-    } else {
+    } else if (s.IsNotFound()) {
         throw std::out_of_range("Key not found");
+    } else {
+        throw std::runtime_error("Unable to read the database: "
+                                 + s.ToString());
     }
 
     return content;
diff --git a/lib/pluto/rocksdb_store.cpp b/lib/pluto/rocksdb_store.cpp
index d5faf39..9f5614d 100644
--- a/lib/pluto/rocksdb_store.cpp
+++ b/lib/pluto/rocksdb_store.cpp
@@ -110,6 +110,9 @@ void GenericRocksDBStore::commit()
     /* LCOV_EXCL_START */
     if (!s.ok()) {
         logger::logger()->error("DB Flush failed: " + s.ToString());
+
+        throw std::runtime_error("Unable to commit the database: "
+                                 + s.ToString());
     }
     /* LCOV_EXCL_STOP */
 }
-- 
2.43.0


From 2aedb7110a7b7dbc960b32c0a3265bf931b34df5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:17 +0000
Subject: [PATCH 36/50] fix: an insertion in a cuckoo table without slots
 terminated the process

---
 lib/oceanus/cuckoo.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/oceanus/cuckoo.cpp b/lib/oceanus/cuckoo.cpp
index 5bab12d..fc72255 100644
--- a/lib/oceanus/cuckoo.cpp
+++ b/lib/oceanus/cuckoo.cpp
@@ -16,6 +16,11 @@ size_t CuckooAllocator::insert(const CuckooKey& key, size_t index)
         throw std::invalid_argument("Index must be different from -1");
     }
 
+    if (cuckoo_table_size == 0) {
+        // there is no place in the table
+        return index;
+    }
+
     CuckooValue value;
 
     value.key         = key;
-- 
2.43.0


From 2185ba94a5634881c33d38578f71386eda9d377a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:30 +0000
Subject: [PATCH 37/50] fix: runners: search with a valid number of threads on
 every machine

hardware_concurrency() can return 0, and 256 or more do not fit in the 8-bit
thread count of the servers: searches then returned nothing, successfully.
---
 lib/diana/server_runner.cpp         | 12 +++++++++++-
 lib/sophos/sophos_server_runner.cpp | 14 ++++++++++++--
 2 files changed, 23 insertions(+), 3 deletions(-)

diff --git a/lib/diana/server_runner.cpp b/lib/diana/server_runner.cpp
index fcb6d42..19975d7 100644
--- a/lib/diana/server_runner.cpp
+++ b/lib/diana/server_runner.cpp
@@ -31,6 +31,7 @@
 
 #include <grpcpp/grpcpp.h>
 
+#include <algorithm>
 #include <atomic>
 #include <fstream>
 #include <thread>
@@ -40,6 +41,15 @@
 namespace sse {
 namespace diana {
 
+// The number of threads of a parallel search: at least one, even if
+// hardware_concurrency() does not know, and no more than what fits in the type
+// used by the server, whatever the number of cores.
+static uint8_t search_thread_count()
+{
+    return static_cast<uint8_t>(
+        std::min(std::max(std::thread::hardware_concurrency(), 1U), 255U));
+}
+
 const char* DianaImpl::pairs_map_file    = "pairs.dat";
 const char* DianaImpl::wrapping_key_file = "wrapping.key";
 
@@ -278,7 +288,7 @@ grpc::Status DianaImpl::async_search(__attribute__((unused))
                                      // only if there are more than 2 results
 
             server_->search_parallel(
-                req, post_callback, std::thread::hardware_concurrency());
+                req, post_callback, search_thread_count());
 
         } else {
             server_->search(req, post_callback);
diff --git a/lib/sophos/sophos_server_runner.cpp b/lib/sophos/sophos_server_runner.cpp
index 46b9669..04ac249 100644
--- a/lib/sophos/sophos_server_runner.cpp
+++ b/lib/sophos/sophos_server_runner.cpp
@@ -29,6 +29,7 @@
 
 #include <grpcpp/grpcpp.h>
 
+#include <algorithm>
 #include <atomic>
 #include <fstream>
 #include <thread>
@@ -37,6 +38,15 @@
 namespace sse {
 namespace sophos {
 
+// The number of threads of a parallel search: at least one, even if
+// hardware_concurrency() does not know, and no more than what fits in the type
+// used by the server, whatever the number of cores.
+static uint8_t search_thread_count()
+{
+    return static_cast<uint8_t>(
+        std::min(std::max(std::thread::hardware_concurrency(), 1U), 255U));
+}
+
 const char* SophosImpl::pk_file        = "tdp_pk.key";
 const char* SophosImpl::pairs_map_file = "pairs.dat";
 
@@ -229,10 +239,10 @@ grpc::Status SophosImpl::async_search(
         if (mes->add_count() >= 40) { // run the search algorithm in parallel
                                       // only if there are more than 2 results
             server_->search_parallel_callback(
-                req, post_callback, std::thread::hardware_concurrency(), 8, 1);
+                req, post_callback, search_thread_count(), 8, 1);
         } else if (mes->add_count() >= 2) {
             server_->search_parallel_light_callback(
-                req, post_callback, std::thread::hardware_concurrency());
+                req, post_callback, search_thread_count());
         } else {
             server_->search_callback(req, post_callback);
         }
-- 
2.43.0


From 693aee03c3c323333699efba3550a7c45cd0b61f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:30 +0000
Subject: [PATCH 38/50] fix: client runners: report failed calls to the caller,
 guard the session's state

Failed insertions, searches cut short, broken update sessions and failed bulk
loads were only logged: the caller took them for successes. The state of an
update session was read without its mutex.
---
 lib/diana/client_runner.cpp                   | 121 +++++++++++-------
 .../sse/runners/diana/client_runner.hpp       |   1 +
 .../runners/sophos/sophos_client_runner.hpp   |   1 +
 lib/sophos/sophos_client_runner.cpp           |  99 +++++++++-----
 4 files changed, 145 insertions(+), 77 deletions(-)

diff --git a/lib/diana/client_runner.cpp b/lib/diana/client_runner.cpp
index 0b47c1a..e0d0af6 100644
--- a/lib/diana/client_runner.cpp
+++ b/lib/diana/client_runner.cpp
@@ -34,6 +34,7 @@
 
 #include <grpcpp/grpcpp.h>
 
+#include <algorithm>
 #include <chrono>
 #include <fstream>
 #include <iostream>
@@ -314,11 +315,12 @@ std::list<uint64_t> DianaClientRunner::search(
         }
     }
     grpc::Status status = reader->Finish();
-    if (status.ok()) {
-        logger::logger()->trace("Search succeeded.");
-    } else {
-        logger::logger()->error("Search failed: \n" + status.error_message());
+    if (!status.ok()) {
+        // the results are not known to be complete
+        logger::logger()->error("Search failed: " + status.error_message());
+        throw std::runtime_error("Search failed: " + status.error_message());
     }
+    logger::logger()->trace("Search succeeded");
 
     return results;
 }
@@ -330,21 +332,34 @@ void DianaClientRunner::insert(const std::string& keyword, uint64_t index)
     google::protobuf::Empty e;
 
 
-    if (bulk_update_state_.writer) { // an update session is running, use it
-        insert_in_session(keyword, index);
-    } else {
-        message
-            = request_to_message(client_->insertion_request(keyword, index));
+    message = request_to_message(client_->insertion_request(keyword, index));
 
-        grpc::Status status = stub_->insert(&context, message, &e);
+    {
+        std::unique_lock<std::mutex> lock(bulk_update_state_.mtx);
 
-        if (status.ok()) {
-            logger::logger()->trace("Update succeeded.");
-        } else {
-            logger::logger()->error("Update failed:\n"
-                                    + status.error_message());
+        if (bulk_update_state_.writer) { // an update session is running, use it
+            write_in_session(message);
+            return;
         }
     }
+
+    grpc::Status status = stub_->insert(&context, message, &e);
+
+    if (!status.ok()) {
+        logger::logger()->error("Update failed: " + status.error_message());
+        throw std::runtime_error("Update failed: " + status.error_message());
+    }
+    logger::logger()->trace("Update succeeded.");
+}
+
+// must be called with the session's mutex held
+void DianaClientRunner::write_in_session(
+    const UpdateRequestMessage& message)
+{
+    if (!bulk_update_state_.writer->Write(message)) {
+        logger::logger()->error("Update session: broken stream.");
+        throw std::runtime_error("Update session: broken stream.");
+    }
 }
 
 void DianaClientRunner::insert_in_session(const std::string& keyword,
@@ -353,47 +368,37 @@ void DianaClientRunner::insert_in_session(const std::string& keyword,
     UpdateRequestMessage message
         = request_to_message(client_->insertion_request(keyword, index));
 
+    std::unique_lock<std::mutex> lock(bulk_update_state_.mtx);
+
     if (!bulk_update_state_.is_up) {
         throw std::runtime_error("Invalid state: the update session is not up");
     }
 
-    bulk_update_state_.mtx.lock();
-    if (!bulk_update_state_.writer->Write(message)) {
-        logger::logger()->error("Update session stopped: broken stream.");
-    }
-    bulk_update_state_.mtx.unlock();
+    write_in_session(message);
 }
 
 
 void DianaClientRunner::insert_in_session(
     const std::list<std::pair<std::string, uint64_t>>& update_list)
 {
-    if (!bulk_update_state_.is_up) {
-        throw std::runtime_error("Invalid state: the update session is not up");
-    }
-
     std::list<UpdateRequest<DianaClientRunner::index_type>> message_list
         = client_->bulk_insertion_request(update_list);
 
-    bulk_update_state_.mtx.lock();
+    std::unique_lock<std::mutex> lock(bulk_update_state_.mtx);
 
-    bool success = std::all_of(
-        message_list.begin(),
-        message_list.end(),
-        [this](const UpdateRequest<DianaClientRunner::index_type>& req) {
-            return this->bulk_update_state_.writer->Write(
-                request_to_message(req));
-        });
-
-    if (!success) {
-        logger::logger()->error("Update session stopped: broken stream.");
+    if (!bulk_update_state_.is_up) {
+        throw std::runtime_error("Invalid state: the update session is not up");
     }
 
-    bulk_update_state_.mtx.unlock();
+    for (const auto& req : message_list) {
+        write_in_session(request_to_message(req));
+    }
 }
 
 void DianaClientRunner::start_update_session()
 {
+    std::unique_lock<std::mutex> lock(bulk_update_state_.mtx);
+
     if (bulk_update_state_.writer) {
         logger::logger()->warn(
             "Invalid client state: the bulk update session is already up");
@@ -410,6 +415,8 @@ void DianaClientRunner::start_update_session()
 
 void DianaClientRunner::end_update_session()
 {
+    std::unique_lock<std::mutex> lock(bulk_update_state_.mtx);
+
     if (!bulk_update_state_.writer) {
         logger::logger()->warn(
             "Invalid client state: the bulk update session is not up");
@@ -419,16 +426,18 @@ void DianaClientRunner::end_update_session()
     bulk_update_state_.writer->WritesDone();
     ::grpc::Status status = bulk_update_state_.writer->Finish();
 
+    bulk_update_state_.is_up = false;
+    bulk_update_state_.context.reset();
+    bulk_update_state_.writer.reset();
+
     if (!status.ok()) {
         logger::logger()->error(
-            "Status not OK at the end of update sessions. Status: \n"
+            "Status not OK at the end of update sessions:\n"
             + status.error_message());
+        throw std::runtime_error("Update session failed: "
+                                 + status.error_message());
     }
 
-    bulk_update_state_.is_up = false;
-    bulk_update_state_.context.reset();
-    bulk_update_state_.writer.reset();
-
     logger::logger()->trace("Update session terminated.");
 }
 
@@ -437,14 +446,15 @@ bool DianaClientRunner::load_inverted_index(const std::string& path)
 {
     try {
         dbparser::DBParserJSON parser(path.c_str());
-        ThreadPool             pool(std::thread::hardware_concurrency());
-
-        std::atomic_size_t counter(0);
+        std::atomic_size_t     counter(0);
+        std::atomic_bool       failed(false);
+        ThreadPool             pool(
+            std::max(std::thread::hardware_concurrency(), 1U));
 
-        auto add_list_callback = [this, &pool, &counter](
+        auto add_list_callback = [this, &pool, &counter, &failed](
                                      const std::string&         kw,
                                      const std::list<unsigned>& docs) {
-            auto work = [this, &counter](const std::string&         keyword,
+            auto work = [this, &counter, &failed](const std::string&         keyword,
                                          const std::list<unsigned>& documents) {
                 std::list<std::pair<std::string, uint64_t>> update_list;
                 update_list.resize(documents.size());
@@ -456,7 +466,13 @@ bool DianaClientRunner::load_inverted_index(const std::string& path)
                                    return std::pair<std::string, uint64_t>(
                                        std::string(keyword), doc);
                                });
-                this->insert_in_session(update_list);
+                try {
+                    this->insert_in_session(update_list);
+                } catch (std::exception& e) {
+                    failed = true;
+                    logger::logger()->error("Loading: "
+                                            + std::string(e.what()));
+                }
                 counter++;
 
                 if ((counter % 100) == 0) {
@@ -479,10 +495,21 @@ bool DianaClientRunner::load_inverted_index(const std::string& path)
 
         end_update_session();
 
+        if (failed) {
+            throw std::runtime_error("some insertions failed");
+        }
+
         return true;
     } catch (std::exception& e) {
         logger::logger()->error("Failed to load file " + path + ": \n"
                                 + e.what());
+
+        // do not leave the session open
+        try {
+            end_update_session();
+        } catch (std::exception& end_error) {
+            logger::logger()->error(end_error.what());
+        }
         return false;
     }
     return false;
diff --git a/lib/include/sse/runners/diana/client_runner.hpp b/lib/include/sse/runners/diana/client_runner.hpp
index 80790c4..688fe90 100644
--- a/lib/include/sse/runners/diana/client_runner.hpp
+++ b/lib/include/sse/runners/diana/client_runner.hpp
@@ -86,6 +86,7 @@ public:
     DianaClientRunner& operator=(DianaClientRunner& h) = delete;
 
 private:
+    void write_in_session(const UpdateRequestMessage& message);
     void update_completion_loop();
 
     bool send_setup(const std::array<uint8_t, crypto::Wrapper::kKeySize>&
diff --git a/lib/include/sse/runners/sophos/sophos_client_runner.hpp b/lib/include/sse/runners/sophos/sophos_client_runner.hpp
index d813d90..e53696d 100644
--- a/lib/include/sse/runners/sophos/sophos_client_runner.hpp
+++ b/lib/include/sse/runners/sophos/sophos_client_runner.hpp
@@ -72,6 +72,7 @@ public:
 
 
 private:
+    void write_in_session(const UpdateRequestMessage& message);
     bool send_setup() const;
 
     std::unique_ptr<sophos::Sophos::Stub> stub_;
diff --git a/lib/sophos/sophos_client_runner.cpp b/lib/sophos/sophos_client_runner.cpp
index 9c8ad43..477003a 100644
--- a/lib/sophos/sophos_client_runner.cpp
+++ b/lib/sophos/sophos_client_runner.cpp
@@ -36,6 +36,7 @@
 
 #include <grpcpp/grpcpp.h>
 
+#include <algorithm>
 #include <chrono>
 #include <fstream>
 #include <iostream>
@@ -291,11 +292,12 @@ std::list<uint64_t> SophosClientRunner::search(
         }
     }
     grpc::Status status = reader->Finish();
-    if (status.ok()) {
-        logger::logger()->trace("Search succeeded");
-    } else {
+    if (!status.ok()) {
+        // the results are not known to be complete
         logger::logger()->error("Search failed: " + status.error_message());
+        throw std::runtime_error("Search failed: " + status.error_message());
     }
+    logger::logger()->trace("Search succeeded");
 
     return results;
 }
@@ -307,20 +309,34 @@ void SophosClientRunner::insert(const std::string& keyword, uint64_t index)
     google::protobuf::Empty      e;
 
 
-    if (bulk_update_state_.writer) { // an update session is running, use it
-        insert_in_session(keyword, index);
-    } else {
-        message
-            = request_to_message(client_->insertion_request(keyword, index));
+    message = request_to_message(client_->insertion_request(keyword, index));
 
-        grpc::Status status = stub_->insert(&context, message, &e);
+    {
+        std::unique_lock<std::mutex> lock(bulk_update_state_.mtx);
 
-        if (status.ok()) {
-            logger::logger()->trace("Update succeeded.");
-        } else {
-            logger::logger()->error("Update failed: " + status.error_message());
+        if (bulk_update_state_.writer) { // an update session is running, use it
+            write_in_session(message);
+            return;
         }
     }
+
+    grpc::Status status = stub_->insert(&context, message, &e);
+
+    if (!status.ok()) {
+        logger::logger()->error("Update failed: " + status.error_message());
+        throw std::runtime_error("Update failed: " + status.error_message());
+    }
+    logger::logger()->trace("Update succeeded.");
+}
+
+// must be called with the session's mutex held
+void SophosClientRunner::write_in_session(
+    const UpdateRequestMessage& message)
+{
+    if (!bulk_update_state_.writer->Write(message)) {
+        logger::logger()->error("Update session: broken stream.");
+        throw std::runtime_error("Update session: broken stream.");
+    }
 }
 
 void SophosClientRunner::insert_in_session(const std::string& keyword,
@@ -329,19 +345,19 @@ void SophosClientRunner::insert_in_session(const std::string& keyword,
     sophos::UpdateRequestMessage message
         = request_to_message(client_->insertion_request(keyword, index));
 
+    std::unique_lock<std::mutex> lock(bulk_update_state_.mtx);
+
     if (!bulk_update_state_.is_up) {
         throw std::runtime_error("Invalid state: the update session is not up");
     }
 
-    bulk_update_state_.mtx.lock();
-    if (!bulk_update_state_.writer->Write(message)) {
-        logger::logger()->error("Update session: broken stream.");
-    }
-    bulk_update_state_.mtx.unlock();
+    write_in_session(message);
 }
 
 void SophosClientRunner::start_update_session()
 {
+    std::unique_lock<std::mutex> lock(bulk_update_state_.mtx);
+
     if (bulk_update_state_.writer) {
         logger::logger()->warn(
             "Invalid client state: the bulk update session is already up");
@@ -358,6 +374,8 @@ void SophosClientRunner::start_update_session()
 
 void SophosClientRunner::end_update_session()
 {
+    std::unique_lock<std::mutex> lock(bulk_update_state_.mtx);
+
     if (!bulk_update_state_.writer) {
         logger::logger()->warn(
             "Invalid client state: the bulk update session is not up");
@@ -367,15 +385,18 @@ void SophosClientRunner::end_update_session()
     bulk_update_state_.writer->WritesDone();
     ::grpc::Status status = bulk_update_state_.writer->Finish();
 
-    if (!status.ok()) {
-        logger::logger()->error("Status not OK at the end of update sessions:\n"
-                                + status.error_message());
-    }
-
     bulk_update_state_.is_up = false;
     bulk_update_state_.context.reset();
     bulk_update_state_.writer.reset();
 
+    if (!status.ok()) {
+        logger::logger()->error(
+            "Status not OK at the end of update sessions:\n"
+            + status.error_message());
+        throw std::runtime_error("Update session failed: "
+                                 + status.error_message());
+    }
+
     logger::logger()->trace("Update session terminated.");
 }
 
@@ -384,17 +405,24 @@ bool SophosClientRunner::load_inverted_index(const std::string& path)
 {
     try {
         dbparser::DBParserJSON parser(path.c_str());
-        ThreadPool             pool(std::thread::hardware_concurrency());
-
-        std::atomic_size_t counter(0);
+        std::atomic_size_t     counter(0);
+        std::atomic_bool       failed(false);
+        ThreadPool             pool(
+            std::max(std::thread::hardware_concurrency(), 1U));
 
-        auto add_list_callback = [this, &pool, &counter](
+        auto add_list_callback = [this, &pool, &counter, &failed](
                                      const std::string&         kw,
                                      const std::list<unsigned>& docs) {
-            auto work = [this, &counter](const std::string&         keyword,
+            auto work = [this, &counter, &failed](const std::string&         keyword,
                                          const std::list<unsigned>& documents) {
-                for (unsigned doc : documents) {
-                    this->insert_in_session(keyword, doc);
+                try {
+                    for (unsigned doc : documents) {
+                        this->insert_in_session(keyword, doc);
+                    }
+                } catch (std::exception& e) {
+                    failed = true;
+                    logger::logger()->error("Loading: "
+                                            + std::string(e.what()));
                 }
                 counter++;
 
@@ -420,10 +448,21 @@ bool SophosClientRunner::load_inverted_index(const std::string& path)
 
         end_update_session();
 
+        if (failed) {
+            throw std::runtime_error("some insertions failed");
+        }
+
         return true;
     } catch (std::exception& e) {
         logger::logger()->error("Failed to load file " + path + ": "
                                 + e.what());
+
+        // do not leave the session open
+        try {
+            end_update_session();
+        } catch (std::exception& end_error) {
+            logger::logger()->error(end_error.what());
+        }
         return false;
     }
     return false;
-- 
2.43.0


From 3e22866c7ef0b76bfec1364d201d800d1a0208b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:30 +0000
Subject: [PATCH 39/50] fix: server runners: a setup which fails leaves nothing
 behind, one at a time

A setup which could not write its key file, or was given a malformed key, left
the server running without it (its database unusable after a restart, or
searches without a token wrapper) or a directory which made all the later
setups fail. Concurrent setups, and calls during a setup, raced on the server.
---
 lib/diana/server_runner.cpp                 | 62 +++++++++++++++------
 lib/diana/server_runner_private.hpp         |  3 +
 lib/sophos/sophos_server_runner.cpp         | 51 +++++++++++++----
 lib/sophos/sophos_server_runner_private.hpp |  3 +
 4 files changed, 89 insertions(+), 30 deletions(-)

diff --git a/lib/diana/server_runner.cpp b/lib/diana/server_runner.cpp
index 19975d7..448b628 100644
--- a/lib/diana/server_runner.cpp
+++ b/lib/diana/server_runner.cpp
@@ -116,6 +116,8 @@ grpc::Status DianaImpl::setup(__attribute__((unused))
 {
     logger::logger()->trace("Start server setup");
 
+    std::unique_lock<std::mutex> lock(setup_mtx_);
+
     if (server_) {
         // problem, the server is already set up
         logger::logger()->error(
@@ -125,6 +127,13 @@ grpc::Status DianaImpl::setup(__attribute__((unused))
                             "The server was already set up");
     }
 
+    if (message->wrapping_key().size() != crypto::Wrapper::kKeySize) {
+        logger::logger()->error("Invalid wrapping key size");
+
+        return grpc::Status(grpc::INVALID_ARGUMENT,
+                            "Invalid transmitted wrapping key size");
+    }
+
     // create the content directory but first check that nothing is already
     // there
 
@@ -149,15 +158,17 @@ grpc::Status DianaImpl::setup(__attribute__((unused))
     // raise an exception, so we need to take care of it
 
     std::string pairs_map_path = storage_path_ + "/" + pairs_map_file;
+    std::unique_ptr<DianaServer<index_type>> server;
 
     try {
         logger::logger()->info("Setting up ...");
-        server_.reset(new DianaServer<index_type>(pairs_map_path));
+        server.reset(new DianaServer<index_type>(pairs_map_path));
     } catch (std::exception& err) {
         logger::logger()->error("Error when setting up the server's core: \n"
                                 + std::string(err.what()));
 
-        server_.reset();
+        server.reset();
+        utility::remove_directory(storage_path_);
         return grpc::Status(grpc::FAILED_PRECONDITION,
                             "Unable to create the server's core.");
     }
@@ -172,19 +183,22 @@ grpc::Status DianaImpl::setup(__attribute__((unused))
 
         logger::logger()->error("Error when writing the wrapping key");
 
+        server.reset();
+        utility::remove_directory(storage_path_);
         return grpc::Status(grpc::PERMISSION_DENIED,
                             "Unable to write the wrapping key to disk");
     }
 
-    if (message->wrapping_key().size() != crypto::Wrapper::kKeySize) {
-        logger::logger()->error("Invalid wrapping key size");
-
-        return grpc::Status(grpc::INVALID_ARGUMENT,
-                            "Invalid transmitted wrapping key size");
-    }
-
     wrapping_key_out << message->wrapping_key();
     wrapping_key_out.close();
+    if (!wrapping_key_out) {
+        logger::logger()->error("Error when writing the wrapping key");
+
+        server.reset();
+        utility::remove_directory(storage_path_);
+        return grpc::Status(grpc::INTERNAL,
+                            "Unable to write the wrapping key to disk");
+    }
 
     std::array<uint8_t, crypto::Wrapper::kKeySize> wrapping_key;
     std::copy(message->wrapping_key().begin(),
@@ -193,6 +207,7 @@ grpc::Status DianaImpl::setup(__attribute__((unused))
 
     token_wrapper_.reset(new crypto::Wrapper(
         crypto::Key<crypto::Wrapper::kKeySize>(wrapping_key.data())));
+    server_ = std::move(server);
 
     logger::logger()->trace("Successful setup");
 
@@ -214,7 +229,8 @@ grpc::Status DianaImpl::sync_search(__attribute__((unused))
                                     const SearchRequestMessage*      mes,
                                     grpc::ServerWriter<SearchReply>* writer)
 {
-    if (!server_) {
+    DianaServer<index_type>* server = get_server();
+    if (server == nullptr) {
         // problem, the server is already set up
         return grpc::Status(grpc::FAILED_PRECONDITION,
                             "The server is not set up");
@@ -233,7 +249,7 @@ grpc::Status DianaImpl::sync_search(__attribute__((unused))
     } else {
         {
             SearchBenchmark bench("Diana synchronous search");
-            server_->search_parallel(req, 8, res_list);
+            server->search_parallel(req, 8, res_list);
             bench.set_count(res_list.size());
         }
         for (auto& i : res_list) {
@@ -255,7 +271,8 @@ grpc::Status DianaImpl::async_search(__attribute__((unused))
                                      const SearchRequestMessage*      mes,
                                      grpc::ServerWriter<SearchReply>* writer)
 {
-    if (!server_) {
+    DianaServer<index_type>* server = get_server();
+    if (server == nullptr) {
         // problem, the server is already set up
         return grpc::Status(grpc::FAILED_PRECONDITION,
                             "The server is not set up");
@@ -287,11 +304,11 @@ grpc::Status DianaImpl::async_search(__attribute__((unused))
         if (mes->add_count() >= 2) { // run the search algorithm in parallel
                                      // only if there are more than 2 results
 
-            server_->search_parallel(
+            server->search_parallel(
                 req, post_callback, search_thread_count());
 
         } else {
-            server_->search(req, post_callback);
+            server->search(req, post_callback);
         }
         bench.set_count(res_size);
     }
@@ -311,7 +328,8 @@ grpc::Status DianaImpl::insert(__attribute__((unused))
 {
     std::unique_lock<std::mutex> lock(update_mtx_);
 
-    if (!server_) {
+    DianaServer<index_type>* server = get_server();
+    if (server == nullptr) {
         // problem, the server is already set up
         return grpc::Status(grpc::FAILED_PRECONDITION,
                             "The server is not set up");
@@ -319,7 +337,7 @@ grpc::Status DianaImpl::insert(__attribute__((unused))
 
     logger::logger()->trace("Updating ...");
 
-    server_->insert(message_to_request(mes));
+    server->insert(message_to_request(mes));
 
     logger::logger()->trace("Update done");
 
@@ -331,7 +349,8 @@ grpc::Status DianaImpl::bulk_insert(
     grpc::ServerReader<UpdateRequestMessage>*        reader,
     __attribute__((unused)) google::protobuf::Empty* e)
 {
-    if (!server_) {
+    DianaServer<index_type>* server = get_server();
+    if (server == nullptr) {
         // problem, the server is already set up
         return grpc::Status(grpc::FAILED_PRECONDITION,
                             "The server is not set up");
@@ -342,7 +361,7 @@ grpc::Status DianaImpl::bulk_insert(
     UpdateRequestMessage mes;
 
     while (reader->Read(&mes)) {
-        server_->insert(message_to_request(&mes));
+        server->insert(message_to_request(&mes));
     }
 
     logger::logger()->trace("Updating (bulk)... done");
@@ -353,6 +372,13 @@ grpc::Status DianaImpl::bulk_insert(
     return grpc::Status::OK;
 }
 
+// The server, or null before the end of a successful setup
+DianaServer<DianaImpl::index_type>* DianaImpl::get_server()
+{
+    std::unique_lock<std::mutex> lock(setup_mtx_);
+    return server_.get();
+}
+
 bool DianaImpl::search_asynchronously() const
 {
     return async_search_;
diff --git a/lib/diana/server_runner_private.hpp b/lib/diana/server_runner_private.hpp
index d8a6144..cfc99e3 100644
--- a/lib/diana/server_runner_private.hpp
+++ b/lib/diana/server_runner_private.hpp
@@ -80,6 +80,8 @@ public:
     void flush_server_storage();
 
 private:
+    DianaServer<index_type>* get_server();
+
     static const char* pairs_map_file;
     static const char* wrapping_key_file;
 
@@ -89,6 +91,7 @@ private:
     std::string                              storage_path_;
 
     std::mutex update_mtx_;
+    std::mutex setup_mtx_; // protects server_ during the setup
 
     bool async_search_;
 };
diff --git a/lib/sophos/sophos_server_runner.cpp b/lib/sophos/sophos_server_runner.cpp
index 04ac249..99ecba1 100644
--- a/lib/sophos/sophos_server_runner.cpp
+++ b/lib/sophos/sophos_server_runner.cpp
@@ -91,6 +91,8 @@ grpc::Status SophosImpl::setup(__attribute__((unused))
 {
     logger::logger()->trace("Setup started");
 
+    std::unique_lock<std::mutex> lock(setup_mtx_);
+
     if (server_) {
         // problem, the server is already set up
         logger::logger()->error(
@@ -124,15 +126,17 @@ grpc::Status SophosImpl::setup(__attribute__((unused))
     // raise an exception, so we need to take care of it
 
     std::string pairs_map_path = storage_path_ + "/" + pairs_map_file;
+    std::unique_ptr<SophosServer> server;
 
     try {
         logger::logger()->info("Setting up server");
-        server_.reset(new SophosServer(pairs_map_path, message->public_key()));
+        server.reset(new SophosServer(pairs_map_path, message->public_key()));
     } catch (std::exception& err) {
         logger::logger()->error("Error when setting up the server's core:\n"
                                 + std::string(err.what()));
 
-        server_.reset();
+        server.reset();
+        utility::remove_directory(storage_path_);
         return grpc::Status(grpc::FAILED_PRECONDITION,
                             "Unable to create the server's core. Exception: "
                                 + std::string(err.what()));
@@ -147,11 +151,23 @@ grpc::Status SophosImpl::setup(__attribute__((unused))
 
         logger::logger()->error("Error when writing the public key");
 
+        server.reset();
+        utility::remove_directory(storage_path_);
         return grpc::Status(grpc::PERMISSION_DENIED,
                             "Unable to write the public key to disk");
     }
     pk_out << message->public_key();
     pk_out.close();
+    if (!pk_out) {
+        logger::logger()->error("Error when writing the public key");
+
+        server.reset();
+        utility::remove_directory(storage_path_);
+        return grpc::Status(grpc::INTERNAL,
+                            "Unable to write the public key to disk");
+    }
+
+    server_ = std::move(server);
 
     logger::logger()->trace("Successful setup");
 
@@ -173,7 +189,8 @@ grpc::Status SophosImpl::sync_search(
     const sophos::SearchRequestMessage*          mes,
     grpc::ServerWriter<sophos::SearchReply>*     writer)
 {
-    if (!server_) {
+    SophosServer* server = get_server();
+    if (server == nullptr) {
         // problem, the server is already set up
         return grpc::Status(grpc::FAILED_PRECONDITION,
                             "The server is not set up");
@@ -187,7 +204,7 @@ grpc::Status SophosImpl::sync_search(
     {
         SearchBenchmark bench("Sophos synchronous search");
 
-        res_list = server_->search_parallel(req, 2);
+        res_list = server->search_parallel(req, 2);
         bench.set_count(res_list.size());
     }
 
@@ -209,7 +226,8 @@ grpc::Status SophosImpl::async_search(
     const sophos::SearchRequestMessage*          mes,
     grpc::ServerWriter<sophos::SearchReply>*     writer)
 {
-    if (!server_) {
+    SophosServer* server = get_server();
+    if (server == nullptr) {
         // problem, the server is already set up
         return grpc::Status(grpc::FAILED_PRECONDITION,
                             "The server is not set up");
@@ -238,13 +256,13 @@ grpc::Status SophosImpl::async_search(
 
         if (mes->add_count() >= 40) { // run the search algorithm in parallel
                                       // only if there are more than 2 results
-            server_->search_parallel_callback(
+            server->search_parallel_callback(
                 req, post_callback, search_thread_count(), 8, 1);
         } else if (mes->add_count() >= 2) {
-            server_->search_parallel_light_callback(
+            server->search_parallel_light_callback(
                 req, post_callback, search_thread_count());
         } else {
-            server_->search_callback(req, post_callback);
+            server->search_callback(req, post_callback);
         }
         bench.set_count(res_size);
     }
@@ -264,7 +282,8 @@ grpc::Status SophosImpl::insert(__attribute__((unused))
 {
     std::unique_lock<std::mutex> lock(update_mtx_);
 
-    if (!server_) {
+    SophosServer* server = get_server();
+    if (server == nullptr) {
         // problem, the server is already set up
         return grpc::Status(grpc::FAILED_PRECONDITION,
                             "The server is not set up");
@@ -272,7 +291,7 @@ grpc::Status SophosImpl::insert(__attribute__((unused))
 
     logger::logger()->trace("Start updating");
 
-    server_->insert(message_to_request(mes));
+    server->insert(message_to_request(mes));
 
     logger::logger()->trace("Update completed");
     return grpc::Status::OK;
@@ -283,7 +302,8 @@ grpc::Status SophosImpl::bulk_insert(
     grpc::ServerReader<sophos::UpdateRequestMessage>* reader,
     __attribute__((unused)) google::protobuf::Empty*  e)
 {
-    if (!server_) {
+    SophosServer* server = get_server();
+    if (server == nullptr) {
         // problem, the server is already set up
         return grpc::Status(grpc::FAILED_PRECONDITION,
                             "The server is not set up");
@@ -294,7 +314,7 @@ grpc::Status SophosImpl::bulk_insert(
     sophos::UpdateRequestMessage mes;
 
     while (reader->Read(&mes)) {
-        server_->insert(message_to_request(&mes));
+        server->insert(message_to_request(&mes));
     }
 
     logger::logger()->trace("Updating (bulk)... done");
@@ -303,6 +323,13 @@ grpc::Status SophosImpl::bulk_insert(
     return grpc::Status::OK;
 }
 
+// The server, or null before the end of a successful setup
+SophosServer* SophosImpl::get_server()
+{
+    std::unique_lock<std::mutex> lock(setup_mtx_);
+    return server_.get();
+}
+
 bool SophosImpl::search_asynchronously() const
 {
     return async_search_;
diff --git a/lib/sophos/sophos_server_runner_private.hpp b/lib/sophos/sophos_server_runner_private.hpp
index 08718fa..692cdb4 100644
--- a/lib/sophos/sophos_server_runner_private.hpp
+++ b/lib/sophos/sophos_server_runner_private.hpp
@@ -72,6 +72,8 @@ public:
 
 
 private:
+    SophosServer* get_server();
+
     static const char* pk_file;
     static const char* pairs_map_file;
 
@@ -79,6 +81,7 @@ private:
     std::string                   storage_path_;
 
     std::mutex update_mtx_;
+    std::mutex setup_mtx_; // protects server_ during the setup
 
     bool async_search_;
 };
-- 
2.43.0


From df5a657f2b8683838fc9a2a9f1133af3b47d7c40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:30 +0000
Subject: [PATCH 40/50] fix: server runners: refuse messages whose tokens do
 not have the right size

They were copied to arrays of a fixed size whatever their length: a longer one
overwrote the server's memory.
---
 lib/diana/server_runner.cpp         |  9 +++++++++
 lib/sophos/sophos_server_runner.cpp | 10 +++++++++-
 2 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/lib/diana/server_runner.cpp b/lib/diana/server_runner.cpp
index 448b628..dcf9af6 100644
--- a/lib/diana/server_runner.cpp
+++ b/lib/diana/server_runner.cpp
@@ -34,6 +34,7 @@
 #include <algorithm>
 #include <atomic>
 #include <fstream>
+#include <stdexcept>
 #include <thread>
 #include <utility>
 
@@ -405,6 +406,10 @@ SearchRequest message_to_request(
     const std::unique_ptr<crypto::Wrapper>& wrapper,
     const SearchRequestMessage*             mes)
 {
+    if (mes->kw_token().size() != kKeywordTokenSize) {
+        throw std::invalid_argument("Malformed search request");
+    }
+
     uint32_t add_count = mes->add_count();
 
     std::vector<uint8_t> rcprf_rep_buffer(mes->constrained_rcprf_rep().begin(),
@@ -421,6 +426,10 @@ SearchRequest message_to_request(
 UpdateRequest<DianaImpl::index_type> message_to_request(
     const UpdateRequestMessage* mes)
 {
+    if (mes->update_token().size() != kUpdateTokenSize) {
+        throw std::invalid_argument("Malformed update request");
+    }
+
     UpdateRequest<DianaImpl::index_type> req;
 
     req.index = mes->index();
diff --git a/lib/sophos/sophos_server_runner.cpp b/lib/sophos/sophos_server_runner.cpp
index 99ecba1..e99f269 100644
--- a/lib/sophos/sophos_server_runner.cpp
+++ b/lib/sophos/sophos_server_runner.cpp
@@ -32,6 +32,7 @@
 #include <algorithm>
 #include <atomic>
 #include <fstream>
+#include <stdexcept>
 #include <thread>
 
 
@@ -346,7 +347,10 @@ SearchRequest message_to_request(const SearchRequestMessage* mes)
 
     req.add_count = mes->add_count();
 
-    assert(mes->derivation_key().size() == kDerivationKeySize);
+    if (mes->derivation_key().size() != kDerivationKeySize
+        || mes->search_token().size() != kSearchTokenSize) {
+        throw std::invalid_argument("Malformed search request");
+    }
     std::copy(mes->derivation_key().begin(),
               mes->derivation_key().begin() + kDerivationKeySize,
               req.derivation_key.begin());
@@ -359,6 +363,10 @@ SearchRequest message_to_request(const SearchRequestMessage* mes)
 
 UpdateRequest message_to_request(const UpdateRequestMessage* mes)
 {
+    if (mes->update_token().size() != kUpdateTokenSize) {
+        throw std::invalid_argument("Malformed update request");
+    }
+
     UpdateRequest req;
 
     req.index = mes->index();
-- 
2.43.0


From 1594ecf7df391f320702c970649b68c14e2891a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:30 +0000
Subject: [PATCH 41/50] fix: client runners: a key which cannot be written to
 its file is an error

The client went on with a key that only it knew, in memory: what was inserted
was lost at its next start.
---
 lib/diana/client_runner.cpp         | 13 +++++++++++++
 lib/sophos/sophos_client_runner.cpp | 11 +++++++++++
 2 files changed, 24 insertions(+)

diff --git a/lib/diana/client_runner.cpp b/lib/diana/client_runner.cpp
index e0d0af6..f70f917 100644
--- a/lib/diana/client_runner.cpp
+++ b/lib/diana/client_runner.cpp
@@ -181,6 +181,10 @@ std::unique_ptr<DC> init_client_in_directory(
     master_key_out << std::string(master_derivation_key.begin(),
                                   master_derivation_key.end());
     master_key_out.close();
+    if (!master_key_out) {
+        throw std::runtime_error(
+            master_key_path + ": unable to write the master derivation key");
+    }
 
     std::ofstream kw_token_key_out(kw_token_master_key_path.c_str());
     if (!kw_token_key_out.is_open()) {
@@ -192,6 +196,11 @@ std::unique_ptr<DC> init_client_in_directory(
     kw_token_key_out << std::string(kw_token_master_key.begin(),
                                     kw_token_master_key.end());
     kw_token_key_out.close();
+    if (!kw_token_key_out) {
+        throw std::runtime_error(
+            kw_token_master_key_path
+            + ": unable to write the master derivation key");
+    }
 
     std::ofstream wrapping_key_out(wrapping_key_path.c_str());
     if (!wrapping_key_out.is_open()) {
@@ -201,6 +210,10 @@ std::unique_ptr<DC> init_client_in_directory(
 
     wrapping_key_out << std::string(wrapping_key.begin(), wrapping_key.end());
     wrapping_key_out.close();
+    if (!wrapping_key_out) {
+        throw std::runtime_error(
+            wrapping_key_path + ": unable to write the master derivation key");
+    }
 
     return std::unique_ptr<DC>(
         new DC(counter_map_path,
diff --git a/lib/sophos/sophos_client_runner.cpp b/lib/sophos/sophos_client_runner.cpp
index 477003a..1f94fb9 100644
--- a/lib/sophos/sophos_client_runner.cpp
+++ b/lib/sophos/sophos_client_runner.cpp
@@ -85,6 +85,9 @@ static std::unique_ptr<SophosClient> init_client_in_directory(
 
     sk_out << tdp.private_key();
     sk_out.close();
+    if (!sk_out) {
+        throw std::runtime_error(sk_path + ": unable to write the secret key");
+    }
 
     std::ofstream master_key_out(master_key_path.c_str());
     if (!master_key_out.is_open()) {
@@ -94,6 +97,10 @@ static std::unique_ptr<SophosClient> init_client_in_directory(
     master_key_out << std::string(derivation_master_key.begin(),
                                   derivation_master_key.end());
     master_key_out.close();
+    if (!master_key_out) {
+        throw std::runtime_error(
+            master_key_path + ": unable to write the master derivation key");
+    }
 
     std::ofstream rsa_prg_key_out(rsa_prg_key_path.c_str());
     if (!rsa_prg_key_out.is_open()) {
@@ -102,6 +109,10 @@ static std::unique_ptr<SophosClient> init_client_in_directory(
     }
     rsa_prg_key_out << std::string(rsa_prg_key.begin(), rsa_prg_key.end());
     rsa_prg_key_out.close();
+    if (!rsa_prg_key_out) {
+        throw std::runtime_error(rsa_prg_key_path
+                                 + ": unable to write the rsa prg key");
+    }
 
 
     auto c_ptr = std::unique_ptr<SophosClient>(new SophosClient(
-- 
2.43.0


From 1daa77d35d7010e825429b4e73c5046b19827b11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:50 +0000
Subject: [PATCH 42/50] fix: Tethys store builder: an interrupted build left
 what looked like a complete store

The table got its name, and the vector's destructor committed it, before the
table and the stash were complete: after a crash, a power failure or a failed
write, a store with missing elements could be opened. The table is renamed once
everything has been written; a stash left by an interrupted build is dropped.
---
 .../schemes/tethys/tethys_store_builder.hpp   | 21 +++++++++++++++--
 lib/include/sse/schemes/utils/utils.hpp       |  2 ++
 lib/utils/utils.cpp                           | 23 +++++++++++--------
 3 files changed, 35 insertions(+), 11 deletions(-)

diff --git a/lib/include/sse/schemes/tethys/tethys_store_builder.hpp b/lib/include/sse/schemes/tethys/tethys_store_builder.hpp
index 53137a7..63b0f83 100644
--- a/lib/include/sse/schemes/tethys/tethys_store_builder.hpp
+++ b/lib/include/sse/schemes/tethys/tethys_store_builder.hpp
@@ -5,6 +5,7 @@
 #include <sse/schemes/abstractio/kv_serializer.hpp>
 #include <sse/schemes/tethys/core_types.hpp>
 #include <sse/schemes/tethys/details/tethys_allocator.hpp>
+#include <sse/schemes/utils/utils.hpp>
 
 #include <array>
 #include <fstream>
@@ -178,8 +179,20 @@ void TethysStoreBuilder<PAGE_SIZE,
     }
     size_t graph_size = params.graph_size(kBucketSize);
 
+    if (utility::is_file(params.tethys_table_path)) {
+        throw std::runtime_error("Unable to build the Tethys store: "
+                                 + params.tethys_table_path
+                                 + " already exists");
+    }
+
+    // an incomplete store must not be taken for a complete one: the table gets
+    // its name once the table and the stash have been written
+    const std::string partial_path = params.tethys_table_path + ".partial";
+    utility::remove_file(partial_path);
+    utility::remove_file(params.tethys_stash_path);
+
     abstractio::awonvm_vector<payload_type, PAGE_SIZE> tethys_table(
-        params.tethys_table_path);
+        partial_path);
     tethys_table.reserve(params.graph_size(kBucketSize));
 
     // run the allocation algorithm
@@ -305,11 +318,15 @@ void TethysStoreBuilder<PAGE_SIZE,
 
         stash_file.close();
 
-        if (!stash_file) {
+        if (!stash_file || !utility::sync_file(params.tethys_stash_path)) {
             throw std::runtime_error("Unable to write the Tethys stash");
         }
     }
 
+    if (!utility::rename_file(partial_path, params.tethys_table_path)) {
+        throw std::runtime_error("Unable to rename the Tethys table");
+    }
+
     encoder.finish_tethys_encoding();
 
 
diff --git a/lib/include/sse/schemes/utils/utils.hpp b/lib/include/sse/schemes/utils/utils.hpp
index 010bdd3..e31fec7 100644
--- a/lib/include/sse/schemes/utils/utils.hpp
+++ b/lib/include/sse/schemes/utils/utils.hpp
@@ -55,6 +55,8 @@ bool exists(const std::string& path);
 bool create_directory(const std::string& path, mode_t mode);
 bool remove_directory(const std::string& path);
 bool remove_file(const std::string& path);
+// when it returns true, the content of the file is durable
+bool sync_file(const std::string& path);
 // when it returns true, the new name is durable
 bool rename_file(const std::string& from, const std::string& to);
 
diff --git a/lib/utils/utils.cpp b/lib/utils/utils.cpp
index 7d68bff..104ed67 100644
--- a/lib/utils/utils.cpp
+++ b/lib/utils/utils.cpp
@@ -173,6 +173,19 @@ bool remove_file(const std::string& path)
     return unlink(path.c_str()) == 0;
 }
 
+bool sync_file(const std::string& path)
+{
+    int fd = open(path.c_str(), O_RDONLY);
+    if (fd == -1) {
+        return false;
+    }
+
+    bool synced = (fsync(fd) == 0);
+    close(fd);
+
+    return synced;
+}
+
 bool rename_file(const std::string& from, const std::string& to)
 {
     if (rename(from.c_str(), to.c_str()) != 0) {
@@ -183,15 +196,7 @@ bool rename_file(const std::string& from, const std::string& to)
     const std::string dir
         = (pos == std::string::npos) ? "." : to.substr(0, pos + 1);
 
-    int fd = open(dir.c_str(), O_RDONLY);
-    if (fd == -1) {
-        return false;
-    }
-
-    bool synced = (fsync(fd) == 0);
-    close(fd);
-
-    return synced;
+    return sync_file(dir);
 }
 
 int open_fd(const std::string& filename, bool direct_io)
-- 
2.43.0


From 1dbfd43ac47677033b550467ae169e219e5a35d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:38 +0000
Subject: [PATCH 43/50] fix: random database generator: nothing was generated
 when the number of hardware threads is unknown, groups of 100 had the name of
 groups of 1000

The header did not compile on its own either (std::string).
---
 lib/include/sse/schemes/utils/db_generator.hpp | 1 +
 lib/utils/db_generator.cpp                     | 6 ++++--
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/lib/include/sse/schemes/utils/db_generator.hpp b/lib/include/sse/schemes/utils/db_generator.hpp
index 43ea343..2a7329e 100644
--- a/lib/include/sse/schemes/utils/db_generator.hpp
+++ b/lib/include/sse/schemes/utils/db_generator.hpp
@@ -22,6 +22,7 @@
 #pragma once
 
 #include <functional>
+#include <string>
 
 //#include "sophos_client_runner.hpp"
 
diff --git a/lib/utils/db_generator.cpp b/lib/utils/db_generator.cpp
index fff8b50..e1632b2 100644
--- a/lib/utils/db_generator.cpp
+++ b/lib/utils/db_generator.cpp
@@ -28,6 +28,7 @@
 #include <cassert>
 #include <cmath>
 
+#include <algorithm>
 #include <atomic>
 #include <iostream>
 #include <list>
@@ -278,7 +279,7 @@ static void generation_job(
                 if (group_rand_10_2[g] < size_group_2) {
                     group_rand_10_2[g]++;
                     kw = kKeywordRand10GroupBase;
-                    kw.append("3_").append(id_string).append("_").append(
+                    kw.append("2_").append(id_string).append("_").append(
                         std::to_string(g));
                     insertions.push_back(kw);
                 }
@@ -522,7 +523,8 @@ void gen_db(size_t                                                 N_entries,
     std::atomic_size_t entries_counter(0);
     std::atomic_size_t docs_counter(0);
 
-    unsigned int             n_threads = std::thread::hardware_concurrency();
+    // hardware_concurrency() is 0 if the number of threads is unknown
+    unsigned int n_threads = std::max(1u, std::thread::hardware_concurrency());
     std::vector<std::thread> threads;
 
     for (unsigned int i = 0; i < n_threads; i++) {
-- 
2.43.0


From 9e48933431f66657e51870c67a6babc17c35bc80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:22 +0000
Subject: [PATCH 44/50] fix: diana_client: it called port 4240, diana_server
 listens on 4241

---
 src/diana_client.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/diana_client.cpp b/src/diana_client.cpp
index 3e39482..72bde0e 100644
--- a/src/diana_client.cpp
+++ b/src/diana_client.cpp
@@ -92,7 +92,7 @@ int main(int argc, char** argv)
     std::unique_ptr<sse::diana::DianaClientRunner> client_runner;
 
     std::shared_ptr<grpc::Channel> channel(grpc::CreateChannel(
-        "localhost:4240", grpc::InsecureChannelCredentials()));
+        "localhost:4241", grpc::InsecureChannelCredentials()));
     client_runner.reset(new sse::diana::DianaClientRunner(channel, client_db));
 
     for (std::string& path : input_files) {
-- 
2.43.0


From 27c5c08e919819fec2fe8b3b2706b38158b99612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:22 +0000
Subject: [PATCH 45/50] fix: diana_client: the last entries of each thread
 generating a database were not inserted

---
 src/diana_client.cpp | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/diana_client.cpp b/src/diana_client.cpp
index 72bde0e..cd71524 100644
--- a/src/diana_client.cpp
+++ b/src/diana_client.cpp
@@ -105,10 +105,16 @@ int main(int argc, char** argv)
         sse::logger::logger()->info("Randomly generating database with {} docs",
                                     rnd_entries_count);
 
-        auto gen_callback = [&client_runner](const std::string& s, size_t i) {
+        // the buffers of all the generating threads
+        std::mutex                                             buffers_mtx;
+        std::list<std::list<std::pair<std::string, uint64_t>>> buffers;
+
+        auto gen_callback = [&client_runner, &buffers_mtx, &buffers](
+                                const std::string& s, size_t i) {
             if (g_diana_buffer_list_ == nullptr) {
-                g_diana_buffer_list_
-                    = new std::list<std::pair<std::string, uint64_t>>();
+                std::lock_guard<std::mutex> lock(buffers_mtx);
+                buffers.emplace_back();
+                g_diana_buffer_list_ = &buffers.back();
             }
             g_diana_buffer_list_->push_back(std::make_pair(s, i));
 
@@ -121,6 +127,13 @@ int main(int argc, char** argv)
 
         client_runner->start_update_session();
         sse::sophos::gen_db(rnd_entries_count, gen_callback);
+
+        // send what is left in the buffers
+        for (const auto& buffer : buffers) {
+            if (!buffer.empty()) {
+                client_runner->insert_in_session(buffer);
+            }
+        }
         client_runner->end_update_session();
     }
 
-- 
2.43.0


From c5e9187039fd2ab23ae253b9da5828ba9298ddd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:22 +0000
Subject: [PATCH 46/50] fix: client programs: a file which could not be loaded
 was passed off as success

---
 src/diana_client.cpp  | 12 +++++++++---
 src/sophos_client.cpp | 12 +++++++++---
 2 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/diana_client.cpp b/src/diana_client.cpp
index cd71524..0fb2e7c 100644
--- a/src/diana_client.cpp
+++ b/src/diana_client.cpp
@@ -95,10 +95,16 @@ int main(int argc, char** argv)
         "localhost:4241", grpc::InsecureChannelCredentials()));
     client_runner.reset(new sse::diana::DianaClientRunner(channel, client_db));
 
+    bool success = true;
+
     for (std::string& path : input_files) {
         sse::logger::logger()->info("Load file " + path);
-        client_runner->load_inverted_index(path);
-        sse::logger::logger()->info("Done loading file " + path);
+        if (client_runner->load_inverted_index(path)) {
+            sse::logger::logger()->info("Done loading file " + path);
+        } else {
+            sse::logger::logger()->error("Unable to load file " + path);
+            success = false;
+        }
     }
 
     if (rnd_entries_count > 0) {
@@ -169,5 +175,5 @@ int main(int argc, char** argv)
     sse::crypto::cleanup_crypto_lib();
 
 
-    return 0;
+    return success ? 0 : 1;
 }
diff --git a/src/sophos_client.cpp b/src/sophos_client.cpp
index 171e2a5..83c4bea 100644
--- a/src/sophos_client.cpp
+++ b/src/sophos_client.cpp
@@ -87,10 +87,16 @@ int main(int argc, char** argv)
     client_runner.reset(
         new sse::sophos::SophosClientRunner(channel, client_db));
 
+    bool success = true;
+
     for (std::string& path : input_files) {
         sse::logger::logger()->info("Load file " + path);
-        client_runner->load_inverted_index(path);
-        sse::logger::logger()->info("Done loading file " + path);
+        if (client_runner->load_inverted_index(path)) {
+            sse::logger::logger()->info("Done loading file " + path);
+        } else {
+            sse::logger::logger()->error("Unable to load file " + path);
+            success = false;
+        }
     }
 
     if (rnd_entries_count > 0) {
@@ -141,5 +147,5 @@ int main(int argc, char** argv)
     sse::crypto::cleanup_crypto_lib();
 
 
-    return 0;
+    return success ? 0 : 1;
 }
-- 
2.43.0


From 27fda6ce6ce488bb7d51a050c2352949ae876a2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:21 +0000
Subject: [PATCH 47/50] fix: server programs: a signal received while the
 server was starting was ignored

---
 src/diana_server.cpp  | 10 ++++++++++
 src/sophos_server.cpp | 10 ++++++++++
 2 files changed, 20 insertions(+)

diff --git a/src/diana_server.cpp b/src/diana_server.cpp
index 96a6e83..fa3f25a 100644
--- a/src/diana_server.cpp
+++ b/src/diana_server.cpp
@@ -18,10 +18,15 @@
 
 sse::diana::DianaServerRunner* g_diana_server_ptr_ = nullptr;
 
+// set once a signal asked the server to exit, maybe while it was starting
+volatile std::sig_atomic_t g_exit_requested_ = 0;
+
 void exit_handler(__attribute__((unused)) int signal)
 {
     sse::logger::logger()->info("Exiting ... ");
 
+    g_exit_requested_ = 1;
+
     if (g_diana_server_ptr_ != nullptr) {
         g_diana_server_ptr_->shutdown();
     }
@@ -86,6 +91,11 @@ int main(int argc, char** argv)
         = new sse::diana::DianaServerRunner("0.0.0.0:4241", server_db);
     g_diana_server_ptr_->set_async_search(async_search);
 
+    if (g_exit_requested_ != 0) {
+        // the signal might have come too early for the handler
+        g_diana_server_ptr_->shutdown();
+    }
+
     g_diana_server_ptr_->wait();
 
     sse::crypto::cleanup_crypto_lib();
diff --git a/src/sophos_server.cpp b/src/sophos_server.cpp
index 65a8305..afb0978 100644
--- a/src/sophos_server.cpp
+++ b/src/sophos_server.cpp
@@ -17,10 +17,15 @@
 
 sse::sophos::SophosServerRunner* g_sophos_server_ptr_ = nullptr;
 
+// set once a signal asked the server to exit, maybe while it was starting
+volatile std::sig_atomic_t g_exit_requested_ = 0;
+
 void exit_handler(__attribute__((unused)) int signal)
 {
     sse::logger::logger()->info("Exiting... ");
 
+    g_exit_requested_ = 1;
+
     if (g_sophos_server_ptr_ != nullptr) {
         g_sophos_server_ptr_->shutdown();
     }
@@ -89,6 +94,11 @@ int main(int argc, char** argv)
     //    "/Users/raphaelbost/Code/sse/sophos/test.ssdb",
     //    &g_sophos_server_ptr_);
 
+    if (g_exit_requested_ != 0) {
+        // the signal might have come too early for the handler
+        g_sophos_server_ptr_->shutdown();
+    }
+
     g_sophos_server_ptr_->wait();
 
     sse::crypto::cleanup_crypto_lib();
-- 
2.43.0


From 4083eab769e5f94a2fcf2c26680645ce3aded5d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:15 +0000
Subject: [PATCH 48/50] fix: fail the Tethys build when the counters cannot be
 flushed

GenericTethysBuilder::build flushed the counters' database and ignored the
outcome: when the flush failed, the build succeeded, and a power loss later
lost counters while the store was complete, so that searches returned
nothing. RocksDBCounter::flush now tells whether it succeeded.
---
 lib/include/sse/schemes/tethys/tethys_builder.hpp | 15 +++++++++++++--
 lib/include/sse/schemes/utils/rocksdb_wrapper.hpp |  2 +-
 lib/utils/rocksdb_wrapper.cpp                     |  4 +++-
 3 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/lib/include/sse/schemes/tethys/tethys_builder.hpp b/lib/include/sse/schemes/tethys/tethys_builder.hpp
index 5bb2e1c..e0d0283 100644
--- a/lib/include/sse/schemes/tethys/tethys_builder.hpp
+++ b/lib/include/sse/schemes/tethys/tethys_builder.hpp
@@ -43,6 +43,8 @@ public:
     void build(value_encoder_type& encoder, stash_encoder_type& stash_encoder);
 
 private:
+    void flush_counters();
+
     StoreBuilder           store_builder;
     sophos::RocksDBCounter counter_db;
     master_prf_type        master_prf;
@@ -58,11 +60,20 @@ GenericTethysBuilder<StoreBuilder>::GenericTethysBuilder(
 {
 }
 
+// The database is only complete once the counters are on the disk, too
+template<class StoreBuilder>
+void GenericTethysBuilder<StoreBuilder>::flush_counters()
+{
+    if (!counter_db.flush(true)) {
+        throw std::runtime_error("Unable to store the keywords' counters");
+    }
+}
+
 template<class StoreBuilder>
 void GenericTethysBuilder<StoreBuilder>::build()
 {
     store_builder.build();
-    counter_db.flush(true);
+    flush_counters();
 }
 
 template<class StoreBuilder>
@@ -71,7 +82,7 @@ void GenericTethysBuilder<StoreBuilder>::build(
     stash_encoder_type& stash_encoder)
 {
     store_builder.build(encoder, stash_encoder);
-    counter_db.flush(true);
+    flush_counters();
 }
 
 
diff --git a/lib/include/sse/schemes/utils/rocksdb_wrapper.hpp b/lib/include/sse/schemes/utils/rocksdb_wrapper.hpp
index 736eb97..0eaf1a3 100644
--- a/lib/include/sse/schemes/utils/rocksdb_wrapper.hpp
+++ b/lib/include/sse/schemes/utils/rocksdb_wrapper.hpp
@@ -268,7 +268,7 @@ public:
 
     bool remove_key(const std::string& key);
 
-    void flush(bool blocking = true);
+    bool flush(bool blocking = true);
 
     inline uint64_t approximate_size() const
     {
diff --git a/lib/utils/rocksdb_wrapper.cpp b/lib/utils/rocksdb_wrapper.cpp
index b015202..6f04c19 100644
--- a/lib/utils/rocksdb_wrapper.cpp
+++ b/lib/utils/rocksdb_wrapper.cpp
@@ -211,7 +211,7 @@ bool RocksDBCounter::remove_key(const std::string& key)
     return s.ok();
 }
 
-void RocksDBCounter::flush(bool blocking)
+bool RocksDBCounter::flush(bool blocking)
 {
     rocksdb::FlushOptions options;
 
@@ -224,6 +224,8 @@ void RocksDBCounter::flush(bool blocking)
         logger::logger()->error("DB Flush failed: " + s.ToString());
     }
     /* LCOV_EXCL_STOP */
+
+    return s.ok();
 }
 } // namespace sophos
 } // namespace sse
-- 
2.43.0


From 9835f8578adfa3082f4c729dca1c23aaa2ca7d77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:23:32 +0000
Subject: [PATCH 49/50] fix: a stopped benchmark went on measuring until it was
 destroyed

---
 lib/utils/logger.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/lib/utils/logger.cpp b/lib/utils/logger.cpp
index 77cfdab..fc9eeab 100644
--- a/lib/utils/logger.cpp
+++ b/lib/utils/logger.cpp
@@ -86,15 +86,17 @@ Benchmark::Benchmark(std::string format)
 void Benchmark::stop()
 {
     if (!stopped_) {
-        end_ = std::chrono::high_resolution_clock::now();
+        end_     = std::chrono::high_resolution_clock::now();
+        stopped_ = true;
     }
 }
 
 void Benchmark::stop(size_t count)
 {
     if (!stopped_) {
-        end_   = std::chrono::high_resolution_clock::now();
-        count_ = count;
+        end_     = std::chrono::high_resolution_clock::now();
+        count_   = count;
+        stopped_ = true;
     }
 }
 
-- 
2.43.0


From 427bf46f0c31f8625bdf6e6e85b69277d29155ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:23:32 +0000
Subject: [PATCH 50/50] fix: setting the null logger or the benchmark file
 twice threw an exception

---
 lib/utils/logger.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/lib/utils/logger.cpp b/lib/utils/logger.cpp
index fc9eeab..f0b7659 100644
--- a/lib/utils/logger.cpp
+++ b/lib/utils/logger.cpp
@@ -54,8 +54,9 @@ void set_logger(const std::shared_ptr<spdlog::logger>& logger)
     if (logger) {
         shared_logger_ = logger;
     } else {
-        shared_logger_
-            = spdlog::create<spdlog::sinks::null_sink_mt>("null_logger");
+        // not registered: this can be called several times
+        shared_logger_ = std::make_shared<spdlog::logger>(
+            "null_logger", std::make_shared<spdlog::sinks::null_sink_mt>());
     }
 }
 
@@ -69,6 +70,9 @@ std::shared_ptr<spdlog::logger> Benchmark::benchmark_logger_(nullptr);
 
 void Benchmark::set_benchmark_file(const std::string& path)
 {
+    // the name of a logger which was set before can be used again
+    spdlog::drop("benchmark");
+
     benchmark_logger_
         = spdlog::basic_logger_mt<spdlog::async_factory>("benchmark", path);
     benchmark_logger_->set_level(spdlog::level::trace);
-- 
2.43.0

