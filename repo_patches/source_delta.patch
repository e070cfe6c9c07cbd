From 43c39b627c89ffac8668ba7589238b4905d57a7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:15 +0000
Subject: [PATCH 01/47] fix: keep the blocking queues' empty flag in step with
 every removal

A pop that took the last element directly (not through try_pop) left the
flag saying the queue was not empty, so the next push neither reached the
pull side nor notified, and a waiting consumer was never woken.
---
 gmlc/containers/BlockingPriorityQueue.hpp | 15 ++++++++++++++-
 gmlc/containers/BlockingQueue.hpp         |  6 ++++++
 2 files changed, 20 insertions(+), 1 deletion(-)

diff --git a/gmlc/containers/BlockingPriorityQueue.hpp b/gmlc/containers/BlockingPriorityQueue.hpp
index d025373..9cb1495 100644
--- a/gmlc/containers/BlockingPriorityQueue.hpp
+++ b/gmlc/containers/BlockingPriorityQueue.hpp
@@ -268,24 +268,28 @@ the two locks will reduce contention in most cases.
                 if (!priorityQueue.empty()) {
                     actval = std::move(priorityQueue.front());
                     priorityQueue.pop();
+                    checkPullAndSwap();
                     return actval;
                 }
                 if (!pullElements.empty())  // make sure we are actually empty;
                 {
                     actval = std::move(pullElements.back());
                     pullElements.pop_back();
+                    checkPullAndSwap();
                     return actval;
                 }
                 condition.wait(pullLock);  // now wait
                 if (!priorityQueue.empty()) {
                     actval = std::move(priorityQueue.front());
                     priorityQueue.pop();
+                    checkPullAndSwap();
                     return actval;
                 }
                 if (!pullElements.empty())  // check for spurious wake-ups
                 {
                     actval = std::move(pullElements.back());
                     pullElements.pop_back();
+                    checkPullAndSwap();
                     return actval;
                 }
                 pullLock.unlock();
@@ -307,12 +311,14 @@ the two locks will reduce contention in most cases.
                 if (!priorityQueue.empty()) {
                     val = std::move(priorityQueue.front());
                     priorityQueue.pop();
+                    checkPullAndSwap();
                     break;
                 }
                 if (!pullElements.empty())  // make sure we are actually empty;
                 {
                     val = std::move(pullElements.back());
                     pullElements.pop_back();
+                    checkPullAndSwap();
                     break;
                 }
                 auto res = condition.wait_for(pullLock, timeout);  // now wait
@@ -320,12 +326,14 @@ the two locks will reduce contention in most cases.
                 if (!priorityQueue.empty()) {
                     val = std::move(priorityQueue.front());
                     priorityQueue.pop();
+                    checkPullAndSwap();
                     break;
                 }
                 if (!pullElements.empty())  // check for spurious wake-ups
                 {
                     val = std::move(pullElements.back());
                     pullElements.pop_back();
+                    checkPullAndSwap();
                     break;
                 }
                 pullLock.unlock();
@@ -358,6 +366,7 @@ the two locks will reduce contention in most cases.
                 if (!priorityQueue.empty()) {
                     auto actval = std::move(priorityQueue.front());
                     priorityQueue.pop();
+                    checkPullAndSwap();
                     return actval;
                 }
                 if (!pullElements.empty()) {
@@ -365,6 +374,7 @@ the two locks will reduce contention in most cases.
                     // filled in the meantime
                     auto actval = std::move(pullElements.back());
                     pullElements.pop_back();
+                    checkPullAndSwap();
                     return actval;
                 }
                 condition.wait(pullLock);
@@ -372,11 +382,13 @@ the two locks will reduce contention in most cases.
                 if (!priorityQueue.empty()) {
                     auto actval = std::move(priorityQueue.front());
                     priorityQueue.pop();
+                    checkPullAndSwap();
                     return actval;
                 }
                 if (!pullElements.empty()) {
                     auto actval = std::move(pullElements.back());
                     pullElements.pop_back();
+                    checkPullAndSwap();
                     return actval;
                 }
                 pullLock.unlock();
@@ -408,7 +420,7 @@ any meaning depending on the number of consumers
                     pushLock.unlock();
                     std::reverse(pullElements.begin(), pullElements.end());
                 } else {
-                    queueEmptyFlag = true;
+                    queueEmptyFlag = priorityQueue.empty();
                 }
             }
         }
@@ -421,6 +433,7 @@ any meaning depending on the number of consumers
         if (!priorityQueue.empty()) {
             std::optional<T> val(std::move(priorityQueue.front()));
             priorityQueue.pop();
+            checkPullAndSwap();
             return val;
         }
         checkPullAndSwap();
diff --git a/gmlc/containers/BlockingQueue.hpp b/gmlc/containers/BlockingQueue.hpp
index 339c5f2..3ddb216 100644
--- a/gmlc/containers/BlockingQueue.hpp
+++ b/gmlc/containers/BlockingQueue.hpp
@@ -220,6 +220,7 @@ contention the two locks will reduce contention in most cases.
                 {
                     auto actval = std::move(pullElements.back());
                     pullElements.pop_back();
+                    checkPullAndSwap();
                     return actval;
                 }
                 condition.wait(pullLock);  // now wait
@@ -227,6 +228,7 @@ contention the two locks will reduce contention in most cases.
                 {
                     auto actval = std::move(pullElements.back());
                     pullElements.pop_back();
+                    checkPullAndSwap();
                     return actval;
                 }
                 pullLock.unlock();
@@ -248,6 +250,7 @@ contention the two locks will reduce contention in most cases.
                 {
                     val = std::move(pullElements.back());
                     pullElements.pop_back();
+                    checkPullAndSwap();
                     break;
                 }
                 auto res = condition.wait_for(pullLock, timeout);  // now wait
@@ -255,6 +258,7 @@ contention the two locks will reduce contention in most cases.
                 {
                     val = std::move(pullElements.back());
                     pullElements.pop_back();
+                    checkPullAndSwap();
                     break;
                 }
                 pullLock.unlock();
@@ -287,6 +291,7 @@ contention the two locks will reduce contention in most cases.
                     // filled in the meantime
                     auto actval = std::move(pullElements.back());
                     pullElements.pop_back();
+                    checkPullAndSwap();
                     return actval;
                 }
                 condition.wait(pullLock);
@@ -294,6 +299,7 @@ contention the two locks will reduce contention in most cases.
                 if (!pullElements.empty()) {
                     auto actval = std::move(pullElements.back());
                     pullElements.pop_back();
+                    checkPullAndSwap();
                     return actval;
                 }
                 pullLock.unlock();
-- 
2.43.0


From af3dc370e1a632ffd342541b90da54e7fcd37990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:37 +0000
Subject: [PATCH 02/47] fix: wake waiting consumers when a blocking queue is
 move-assigned

Elements that arrive by move assignment were not announced, so a consumer
already blocked in pop() stayed blocked with elements in the queue.
---
 gmlc/containers/BlockingPriorityQueue.hpp | 2 ++
 gmlc/containers/BlockingQueue.hpp         | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/gmlc/containers/BlockingPriorityQueue.hpp b/gmlc/containers/BlockingPriorityQueue.hpp
index 9cb1495..76d7666 100644
--- a/gmlc/containers/BlockingPriorityQueue.hpp
+++ b/gmlc/containers/BlockingPriorityQueue.hpp
@@ -89,6 +89,8 @@ the two locks will reduce contention in most cases.
             pullElements = std::move(sq.pullElements);
             priorityQueue = std::move(sq.priorityQueue);
             queueEmptyFlag = (pullElements.empty() && priorityQueue.empty());
+            // elements may have arrived for waiting consumers
+            condition.notify_all();
             return *this;
         }
         /** DISABLE_COPY_AND_ASSIGN */
diff --git a/gmlc/containers/BlockingQueue.hpp b/gmlc/containers/BlockingQueue.hpp
index 3ddb216..b9076b7 100644
--- a/gmlc/containers/BlockingQueue.hpp
+++ b/gmlc/containers/BlockingQueue.hpp
@@ -81,6 +81,8 @@ contention the two locks will reduce contention in most cases.
             pushElements = std::move(sq.pushElements);
             pullElements = std::move(sq.pullElements);
             queueEmptyFlag = pullElements.empty();
+            // elements may have arrived for waiting consumers
+            condition.notify_all();
             return *this;
         }
         /** DISABLE_COPY_AND_ASSIGN */
-- 
2.43.0


From 0ee3605a4d4212f74bd36c1007ceb67bf9387dbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:24 +0000
Subject: [PATCH 03/47] fix: set a blocking queue's non-empty flag only once
 the element is stored

The flag was cleared before the insertion, so while a push was still in
progress, or after one that threw, other producers believed a consumer had
been notified and left elements on the push side of a queue whose pull side
was empty: waiting consumers were not woken and order could be inverted.
---
 gmlc/containers/BlockingPriorityQueue.hpp | 37 +++++------------------
 gmlc/containers/BlockingQueue.hpp         |  8 ++---
 2 files changed, 12 insertions(+), 33 deletions(-)

diff --git a/gmlc/containers/BlockingPriorityQueue.hpp b/gmlc/containers/BlockingPriorityQueue.hpp
index 76d7666..f47c8cd 100644
--- a/gmlc/containers/BlockingPriorityQueue.hpp
+++ b/gmlc/containers/BlockingPriorityQueue.hpp
@@ -120,13 +120,12 @@ the two locks will reduce contention in most cases.
                 m_pushLock);  // only one lock on this branch
             if (pushElements.empty()) {
                 bool expEmpty = true;
-                if (queueEmptyFlag.compare_exchange_strong(expEmpty, false)) {
+                if (queueEmptyFlag.load()) {
                     // release the push lock so we don't get a potential
                     // deadlock condition
                     pushLock.unlock();
                     std::unique_lock<MUTEX> pullLock(
                         m_pullLock);  // first pullLock
-                    queueEmptyFlag = false;
                     if (pullElements.empty()) {
                         pullElements.push_back(std::forward<Z>(val));
                         // pullLock.unlock ();
@@ -134,6 +133,7 @@ the two locks will reduce contention in most cases.
                         pushLock.lock();
                         pushElements.push_back(std::forward<Z>(val));
                     }
+                    queueEmptyFlag = false;
                     condition.notify_all();
                     return;
                 } else {
@@ -155,21 +155,11 @@ the two locks will reduce contention in most cases.
         template<class Z>
         void pushPriority(Z&& val)  // forwarding reference
         {
+            std::unique_lock<MUTEX> pullLock(m_pullLock);  // first pullLock
+            priorityQueue.push(std::forward<Z>(val));
             bool expEmpty = true;
             if (queueEmptyFlag.compare_exchange_strong(expEmpty, false)) {
-                std::unique_lock<MUTEX> pullLock(m_pullLock);  // first pullLock
-                queueEmptyFlag = false;  // need to set the flag again just in
-                                         // case after we get the lock
-                priorityQueue.push(std::forward<Z>(val));
-                // pullLock.unlock ();
                 condition.notify_all();
-            } else {
-                std::unique_lock<MUTEX> pullLock(m_pullLock);
-                priorityQueue.push(std::forward<Z>(val));
-                expEmpty = true;
-                if (queueEmptyFlag.compare_exchange_strong(expEmpty, false)) {
-                    condition.notify_all();
-                }
             }
         }
 
@@ -181,14 +171,12 @@ the two locks will reduce contention in most cases.
                 m_pushLock);  // only one lock on this branch
             if (pushElements.empty()) {
                 bool expEmpty = true;
-                if (queueEmptyFlag.compare_exchange_strong(expEmpty, false)) {
+                if (queueEmptyFlag.load()) {
                     // release the push lock so we don't get a potential
                     // deadlock condition
                     pushLock.unlock();
                     std::unique_lock<MUTEX> pullLock(
                         m_pullLock);  // first pullLock
-                    queueEmptyFlag = false;  // need to set the flag again after
-                                             // we get the lock
                     if (pullElements.empty()) {
                         pullElements.emplace_back(std::forward<Args>(args)...);
                     } else {
@@ -196,6 +184,7 @@ the two locks will reduce contention in most cases.
                         pushElements.emplace_back(std::forward<Args>(args)...);
                     }
 
+                    queueEmptyFlag = false;
                     condition.notify_all();
                     return;
                 } else {
@@ -217,21 +206,11 @@ the two locks will reduce contention in most cases.
         template<class... Args>
         void emplacePriority(Args&&... args)
         {
+            std::unique_lock<MUTEX> pullLock(m_pullLock);  // first pullLock
+            priorityQueue.emplace(std::forward<Args>(args)...);
             bool expEmpty = true;
             if (queueEmptyFlag.compare_exchange_strong(expEmpty, false)) {
-                std::unique_lock<MUTEX> pullLock(m_pullLock);  // first pullLock
-                queueEmptyFlag = false;  // need to set the flag again just in
-                                         // case after we get the lock
-                priorityQueue.emplace(std::forward<Args>(args)...);
-                // pullLock.unlock ();
                 condition.notify_all();
-            } else {
-                std::unique_lock<MUTEX> pullLock(m_pullLock);
-                priorityQueue.emplace(std::forward<Args>(args)...);
-                expEmpty = true;
-                if (queueEmptyFlag.compare_exchange_strong(expEmpty, false)) {
-                    condition.notify_all();
-                }
             }
         }
         /** try to peek at an object without popping it from the stack
diff --git a/gmlc/containers/BlockingQueue.hpp b/gmlc/containers/BlockingQueue.hpp
index b9076b7..cb2c844 100644
--- a/gmlc/containers/BlockingQueue.hpp
+++ b/gmlc/containers/BlockingQueue.hpp
@@ -121,13 +121,12 @@ contention the two locks will reduce contention in most cases.
                 m_pushLock);  // only one lock on this branch
             if (pushElements.empty()) {
                 bool expEmpty = true;
-                if (queueEmptyFlag.compare_exchange_strong(expEmpty, false)) {
+                if (queueEmptyFlag.load()) {
                     // release the push lock so we don't get a potential
                     // deadlock condition
                     pushLock.unlock();
                     std::unique_lock<MUTEX> pullLock(
                         m_pullLock);  // first pullLock
-                    queueEmptyFlag = false;
                     if (pullElements.empty()) {
                         pullElements.push_back(std::forward<Z>(val));
                     } else {
@@ -135,6 +134,7 @@ contention the two locks will reduce contention in most cases.
                         pushElements.push_back(std::forward<Z>(val));
                     }
                     // pullLock.unlock ();
+                    queueEmptyFlag = false;
                     condition.notify_all();
                     return;
                 } else {
@@ -158,13 +158,12 @@ contention the two locks will reduce contention in most cases.
                 m_pushLock);  // only one lock on this branch
             if (pushElements.empty()) {
                 bool expEmpty = true;
-                if (queueEmptyFlag.compare_exchange_strong(expEmpty, false)) {
+                if (queueEmptyFlag.load()) {
                     // release the push lock so we don't get a potential
                     // deadlock condition
                     pushLock.unlock();
                     std::unique_lock<MUTEX> pullLock(
                         m_pullLock);  // first pullLock
-                    queueEmptyFlag = false;
                     if (pullElements.empty()) {
                         pullElements.emplace_back(std::forward<Args>(args)...);
                     } else {
@@ -173,6 +172,7 @@ contention the two locks will reduce contention in most cases.
                     }
 
                     // pullLock.unlock ();
+                    queueEmptyFlag = false;
                     condition.notify_all();
                     return;
                 } else {
-- 
2.43.0


From 18c77d268c36dbaf1f69d14a96b6df65109b4692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:48 +0000
Subject: [PATCH 04/47] fix: a timed pop waits no longer than its timeout

Every wake-up that brought no element restarted the full timeout.
---
 gmlc/containers/BlockingPriorityQueue.hpp | 6 +++++-
 gmlc/containers/BlockingQueue.hpp         | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/gmlc/containers/BlockingPriorityQueue.hpp b/gmlc/containers/BlockingPriorityQueue.hpp
index f47c8cd..29ff330 100644
--- a/gmlc/containers/BlockingPriorityQueue.hpp
+++ b/gmlc/containers/BlockingPriorityQueue.hpp
@@ -12,6 +12,7 @@ SPDX-License-Identifier: BSD-3-Clause
 
 #include <algorithm>
 #include <atomic>
+#include <chrono>
 #include <condition_variable>
 #include <mutex>
 #include <queue>
@@ -285,6 +286,8 @@ the two locks will reduce contention in most cases.
         template<typename TIME>
         std::optional<T> pop(TIME timeout)
         {
+            // a wake-up without an element must not restart the timeout
+            const auto deadline = std::chrono::steady_clock::now() + timeout;
             auto val = try_pop();
             while (!val) {
                 std::unique_lock<MUTEX> pullLock(
@@ -302,7 +305,8 @@ the two locks will reduce contention in most cases.
                     checkPullAndSwap();
                     break;
                 }
-                auto res = condition.wait_for(pullLock, timeout);  // now wait
+                auto res =
+                    condition.wait_until(pullLock, deadline);  // now wait
 
                 if (!priorityQueue.empty()) {
                     val = std::move(priorityQueue.front());
diff --git a/gmlc/containers/BlockingQueue.hpp b/gmlc/containers/BlockingQueue.hpp
index cb2c844..39eb119 100644
--- a/gmlc/containers/BlockingQueue.hpp
+++ b/gmlc/containers/BlockingQueue.hpp
@@ -11,6 +11,7 @@ SPDX-License-Identifier: BSD-3-Clause
 
 #include <algorithm>
 #include <atomic>
+#include <chrono>
 #include <condition_variable>
 #include <mutex>
 #include <type_traits>
@@ -244,6 +245,8 @@ contention the two locks will reduce contention in most cases.
         template<typename TIME>
         std::optional<T> pop(TIME timeout)
         {
+            // a wake-up without an element must not restart the timeout
+            const auto deadline = std::chrono::steady_clock::now() + timeout;
             auto val = try_pop();
             while (!val) {
                 std::unique_lock<MUTEX> pullLock(
@@ -255,7 +258,8 @@ contention the two locks will reduce contention in most cases.
                     checkPullAndSwap();
                     break;
                 }
-                auto res = condition.wait_for(pullLock, timeout);  // now wait
+                auto res =
+                    condition.wait_until(pullLock, deadline);  // now wait
                 if (!pullElements.empty())  // check for spurious wake-ups
                 {
                     val = std::move(pullElements.back());
-- 
2.43.0


From 8f9b746504f8ec661253cc0b77a9ca5f6a8b6b0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:48 +0000
Subject: [PATCH 05/47] fix: pushing an empty vector leaves an empty
 SimpleQueue empty

empty() answered false afterwards although there was nothing to pop.
---
 gmlc/containers/SimpleQueue.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gmlc/containers/SimpleQueue.hpp b/gmlc/containers/SimpleQueue.hpp
index 67a9467..9aba85d 100644
--- a/gmlc/containers/SimpleQueue.hpp
+++ b/gmlc/containers/SimpleQueue.hpp
@@ -143,6 +143,9 @@ atomic flag indicating the queue is empty
         */
         void pushVector(const std::vector<X>& val)  // universal reference
         {
+            if (val.empty()) {
+                return;  // nothing to add, so nothing to flag as non-empty
+            }
             std::unique_lock<MUTEX> pushLock(
                 m_pushLock);  // only one lock on this branch
             if (pushElements.empty()) {
-- 
2.43.0


From 5dea7c93179ab15af3e5fdbc1bee40c9c8b9f89f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:52 +0000
Subject: [PATCH 06/47] fix: a load that throws hands its wakeup to the next
 waiting loader

---
 gmlc/containers/AirLock.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/gmlc/containers/AirLock.hpp b/gmlc/containers/AirLock.hpp
index 7cba1fe..3548c68 100644
--- a/gmlc/containers/AirLock.hpp
+++ b/gmlc/containers/AirLock.hpp
@@ -67,7 +67,14 @@ class AirLock {
             while (loaded.load(std::memory_order_acquire)) {
                 condition.wait(lock);
             }
-            data = std::forward<Z>(val);
+            try {
+                data = std::forward<Z>(val);
+            }
+            catch (...) {
+                // the airlock is still empty, pass the wakeup on
+                condition.notify_one();
+                throw;
+            }
             loaded.store(true, std::memory_order_release);
         }
     }
-- 
2.43.0


From cab8c1017e3f599ff6056b97e2da8f20f090005f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:59 +0000
Subject: [PATCH 07/47] fix: a work block queued more than once is executed
 once

---
 gmlc/containers/WorkQueue.hpp | 59 +++++++++++++++++++++++++++++------
 1 file changed, 49 insertions(+), 10 deletions(-)

diff --git a/gmlc/containers/WorkQueue.hpp b/gmlc/containers/WorkQueue.hpp
index 29f58f1..f21fd51 100644
--- a/gmlc/containers/WorkQueue.hpp
+++ b/gmlc/containers/WorkQueue.hpp
@@ -23,6 +23,7 @@ SPDX-License-Identifier: BSD-3-Clause
 
 #include "SimpleQueue.hpp"
 
+#include <atomic>
 #include <future>
 #include <memory>
 #include <thread>
@@ -52,6 +53,44 @@ namespace containers {
         virtual bool isFinished() const override { return true; }
     };
 
+    namespace detail {
+        /** the progress of a work block
+    @details atomic since a block can be queued more than once and can be polled
+    while a worker executes it; a move takes the progress along*/
+        class WorkProgress {
+          public:
+            WorkProgress() noexcept = default;
+            WorkProgress(WorkProgress&& other) noexcept :
+                state(other.state.load())
+            {
+            }
+            WorkProgress& operator=(WorkProgress&& other) noexcept
+            {
+                state.store(other.state.load());
+                return *this;
+            }
+            /** claim the execution
+        @return true for exactly one caller until the next rearm*/
+            bool start() noexcept
+            {
+                int expected{pending};
+                return state.compare_exchange_strong(expected, running);
+            }
+            /** mark the work as done*/
+            void finish() noexcept { state.store(done); }
+            /** allow the work to be executed again*/
+            void rearm() noexcept { state.store(pending); }
+            /** check if the work is done*/
+            bool finished() const noexcept { return state.load() == done; }
+
+          private:
+            static constexpr int pending{0};
+            static constexpr int running{1};
+            static constexpr int done{2};
+            std::atomic<int> state{pending};
+        };
+    }  // namespace detail
+
     /** implementation of a workBlock class
 The class takes as an input object of some kind function, std::function, lambda
 that can be executed, functionoid, or something that implements operator()
@@ -84,11 +123,11 @@ that can be executed, functionoid, or something that implements operator()
         /** execute the work block*/
         virtual void execute() override
         {
-            if (!finished) {
+            if (progress.start()) {
                 if (loaded) {
                     task();
                 }
-                finished = true;
+                progress.finish();
             }
         }
         /** get the return value,  will block until the task is finished*/
@@ -116,7 +155,7 @@ that can be executed, functionoid, or something that implements operator()
             loaded = true;
         }
         /** check if the task is finished*/
-        bool isFinished() const override { return finished; }
+        bool isFinished() const override { return progress.finished(); }
         /** wait until the work is done*/
         void wait() { future_ret.wait(); }
         /** reset the work so it can run again*/
@@ -125,8 +164,8 @@ that can be executed, functionoid, or something that implements operator()
             if (loaded) {
                 task.reset();
             }
-            finished = false;
             future_ret = task.get_future();
+            progress.rearm();
         };
         /** get the shared future object*/
         std::shared_future<retType> get_future() { return future_ret; }
@@ -134,7 +173,7 @@ that can be executed, functionoid, or something that implements operator()
       private:
         std::packaged_task<retType()> task;  //!< the task to do
         std::shared_future<retType> future_ret;  //!< shared future object
-        bool finished;  //!< flag indicating the work has been done
+        detail::WorkProgress progress;  //!< whether the work has been done
         bool loaded = false;  //!< flag indicating that the task is loaded
     };
 
@@ -166,11 +205,11 @@ that can be executed
         WorkBlock& operator=(WorkBlock&& wb) = default;
         virtual void execute() override
         {
-            if (!finished) {
+            if (progress.start()) {
                 if (loaded) {
                     task();
                 }
-                finished = true;
+                progress.finish();
             }
         };
         void getReturnVal() const { future_ret.wait(); }
@@ -193,22 +232,22 @@ that can be executed
             reset();
             loaded = true;
         }
-        bool isFinished() const override { return finished; };
+        bool isFinished() const override { return progress.finished(); };
         void wait() const { future_ret.wait(); }
         void reset()
         {
             if (loaded) {
                 task.reset();
             }
-            finished = false;
             future_ret = task.get_future();
+            progress.rearm();
         };
         std::shared_future<void> get_future() { return future_ret; }
 
       private:
         std::packaged_task<void()> task;
         std::shared_future<void> future_ret;
-        bool finished;
+        detail::WorkProgress progress;
         bool loaded = false;
     };
 
-- 
2.43.0


From ba54cf0b7622525bc7da34b065e39ac6665f2b5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:20 +0000
Subject: [PATCH 08/47] fix: a work queue without workers ignores null blocks
 in a vector

---
 gmlc/containers/WorkQueue.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gmlc/containers/WorkQueue.hpp b/gmlc/containers/WorkQueue.hpp
index f21fd51..87479c2 100644
--- a/gmlc/containers/WorkQueue.hpp
+++ b/gmlc/containers/WorkQueue.hpp
@@ -437,7 +437,9 @@ value)
                 queueCondition.notify_all();
             } else {
                 for (auto& wb : newWork) {
-                    wb->execute();
+                    if (wb) {
+                        wb->execute();
+                    }
                 }
             }
         }
-- 
2.43.0


From 9726b36ca1810f959750facbea1edcea28858d7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:57 +0000
Subject: [PATCH 09/47] fix: newly added work always wakes an idle worker

---
 gmlc/containers/WorkQueue.hpp | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/gmlc/containers/WorkQueue.hpp b/gmlc/containers/WorkQueue.hpp
index 87479c2..83d8669 100644
--- a/gmlc/containers/WorkQueue.hpp
+++ b/gmlc/containers/WorkQueue.hpp
@@ -389,26 +389,21 @@ value)
                 return;
             }
             if (numWorkers > 0) {
-                size_t ccount;
                 switch (priority) {
                     case WorkPriority::high:
                     case WorkPriority::required:
-                        ccount = workToDoHigh.size();
                         workToDoHigh.push(std::move(newWork));
                         break;
                     case WorkPriority::medium:
-                        ccount = workToDoMed.size();
                         workToDoMed.push(std::move(newWork));
                         break;
                     case WorkPriority::low:
                     default:
-                        ccount = workToDoLow.size();
                         workToDoLow.push(std::move(newWork));
                         break;
                 }
-                if (static_cast<int>(ccount) <= numWorkers) {
-                    queueCondition.notify_one();
-                }
+                waitForIdleCheck();
+                queueCondition.notify_one();
             } else {
                 newWork->execute();
             }
@@ -434,6 +429,7 @@ value)
                         workToDoLow.pushVector(newWork);
                         break;
                 }
+                waitForIdleCheck();
                 queueCondition.notify_all();
             } else {
                 for (auto& wb : newWork) {
@@ -506,6 +502,10 @@ value)
         }
 
       private:
+        /** let a worker that is about to wait finish its check of the queues
+    @details called after new work was added; a worker that missed the work is
+    waiting for the notification once this returns*/
+        void waitForIdleCheck() { std::lock_guard<std::mutex> lv(queueLock); }
         /** the main worker loop*/
         void workerLoop()
         {
@@ -515,8 +515,10 @@ value)
                     if (halt.load()) {
                         return;
                     }
-                    queueCondition.wait_for(
-                        lv, std::chrono::milliseconds(5000));
+                    if (isEmpty()) {  // nothing was added before the lock
+                        queueCondition.wait_for(
+                            lv, std::chrono::milliseconds(5000));
+                    }
                     if (halt) {
                         return;
                     }
-- 
2.43.0


From 6925ee4a3f09f7386d5a636d78f2227741396fc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:03 +0000
Subject: [PATCH 10/47] fix: concurrent calls of closeWorkerQueue no longer
 deadlock

---
 gmlc/containers/WorkQueue.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/gmlc/containers/WorkQueue.hpp b/gmlc/containers/WorkQueue.hpp
index 83d8669..6f87b65 100644
--- a/gmlc/containers/WorkQueue.hpp
+++ b/gmlc/containers/WorkQueue.hpp
@@ -351,6 +351,8 @@ value)
         /** destroy the WorkQueue*/
         void closeWorkerQueue()
         {
+            // one thread shuts the queue down, any other waits for it
+            std::lock_guard<std::mutex> closing(closeLock);
             std::unique_lock<std::mutex> lv(queueLock);
             if (!halt.load()) {
                 halt.store(true);
@@ -366,6 +368,8 @@ value)
                     addWorkBlock(dummyWork, WorkPriority::required);
                 }
                 queueCondition.notify_all();
+            } else {
+                lv.unlock();
             }
             for (auto& thrd : threadpool) {
                 if (thrd.joinable()) {
@@ -553,6 +557,7 @@ value)
         std::atomic<int> MedCounter{
             0};  //!< the counter to use low instead of Med
         std::vector<std::thread> threadpool;  //!< the threads
+        std::mutex closeLock;  //!< mutex for closing, taken before queueLock
         std::mutex queueLock;  //!< mutex for condition variable and halt
         std::condition_variable queueCondition;  //!< condition variable for
                                                  //!< waking the threads
-- 
2.43.0


From 4ceefbdd59a6fb343988d076816da8f2d487364f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:03 +0000
Subject: [PATCH 11/47] fix: closing a work queue needs no allocation that
 could fail

---
 gmlc/containers/WorkQueue.hpp | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/gmlc/containers/WorkQueue.hpp b/gmlc/containers/WorkQueue.hpp
index 6f87b65..2751ead 100644
--- a/gmlc/containers/WorkQueue.hpp
+++ b/gmlc/containers/WorkQueue.hpp
@@ -357,16 +357,12 @@ value)
             if (!halt.load()) {
                 halt.store(true);
                 lv.unlock();
-                auto dummyWork = std::make_shared<NullWorkBlock>();
 
                 workToDoHigh.clear();
                 workToDoMed.clear();
                 workToDoLow.clear();
 
-                queueCondition.notify_all();
-                for (int ii = 0; ii < numWorkers; ++ii) {
-                    addWorkBlock(dummyWork, WorkPriority::required);
-                }
+                // the workers check halt before they wait, so this reaches all
                 queueCondition.notify_all();
             } else {
                 lv.unlock();
-- 
2.43.0


From 05ed3173ac8dd1e5778985ecdc7a4b7c6b88c4ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:45 +0000
Subject: [PATCH 12/47] fix: a work queue whose threads cannot all start stops
 the ones that did

---
 gmlc/containers/WorkQueue.hpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/gmlc/containers/WorkQueue.hpp b/gmlc/containers/WorkQueue.hpp
index 2751ead..42aab2f 100644
--- a/gmlc/containers/WorkQueue.hpp
+++ b/gmlc/containers/WorkQueue.hpp
@@ -328,8 +328,16 @@ value)
         {
             if (numWorkers != 0) {
                 threadpool.resize(numWorkers);
-                for (int kk = 0; kk < numWorkers; ++kk) {
-                    threadpool[kk] = std::thread(&WorkQueue::workerLoop, this);
+                try {
+                    for (int kk = 0; kk < numWorkers; ++kk) {
+                        threadpool[kk] =
+                            std::thread(&WorkQueue::workerLoop, this);
+                    }
+                }
+                catch (...) {
+                    // stop the threads that did start
+                    closeWorkerQueue();
+                    throw;
                 }
             }
         }
-- 
2.43.0


From 9f311f593041651addbc09425eb8bce5885be737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:19 +0000
Subject: [PATCH 13/47] fix: block containers count an element only once it is
 constructed

---
 gmlc/containers/StableBlockDeque.hpp  | 18 ++++++++++++------
 gmlc/containers/StableBlockVector.hpp |  9 ++++++---
 2 files changed, 18 insertions(+), 9 deletions(-)

diff --git a/gmlc/containers/StableBlockDeque.hpp b/gmlc/containers/StableBlockDeque.hpp
index 7414757..484dfc8 100644
--- a/gmlc/containers/StableBlockDeque.hpp
+++ b/gmlc/containers/StableBlockDeque.hpp
@@ -180,21 +180,24 @@ and deallocate methods)*/
         void emplace_back(Args&&... args)
         {
             blockCheck();
-            new (&(dataptr[dataSlotBack][bsize++]))
+            new (&(dataptr[dataSlotBack][bsize]))
                 X(std::forward<Args>(args)...);
+            ++bsize;
             ++csize;
         }
 
         void push_back(const X& val)
         {
             blockCheck();
-            new (&(dataptr[dataSlotBack][bsize++])) X{val};
+            new (&(dataptr[dataSlotBack][bsize])) X{val};
+            ++bsize;
             ++csize;
         }
         void push_back(X&& val)
         {
             blockCheck();
-            new (&(dataptr[dataSlotBack][bsize++])) X{std::move(val)};
+            new (&(dataptr[dataSlotBack][bsize])) X{std::move(val)};
+            ++bsize;
             ++csize;
         }
 
@@ -217,21 +220,24 @@ and deallocate methods)*/
         void emplace_front(Args&&... args)
         {
             blockCheckFront();
-            new (&(dataptr[dataSlotFront][fsize--]))
+            new (&(dataptr[dataSlotFront][fsize]))
                 X(std::forward<Args>(args)...);
+            --fsize;
             ++csize;
         }
 
         void push_front(const X& val)
         {
             blockCheckFront();
-            new (&(dataptr[dataSlotFront][fsize--])) X{val};
+            new (&(dataptr[dataSlotFront][fsize])) X{val};
+            --fsize;
             ++csize;
         }
         void push_front(X&& val)
         {
             blockCheckFront();
-            new (&(dataptr[dataSlotFront][fsize--])) X{std::move(val)};
+            new (&(dataptr[dataSlotFront][fsize])) X{std::move(val)};
+            --fsize;
             ++csize;
         }
 
diff --git a/gmlc/containers/StableBlockVector.hpp b/gmlc/containers/StableBlockVector.hpp
index c7b3bd7..f75afe3 100644
--- a/gmlc/containers/StableBlockVector.hpp
+++ b/gmlc/containers/StableBlockVector.hpp
@@ -136,8 +136,9 @@ no erase or insert
         void emplace_back(Args&&... args)
         {
             blockCheck();
-            new (&(dataptr[dataSlotIndex][bsize++]))
+            new (&(dataptr[dataSlotIndex][bsize]))
                 X(std::forward<Args>(args)...);
+            ++bsize;
             ++csize;
         }
 
@@ -145,14 +146,16 @@ no erase or insert
             std::is_nothrow_copy_constructible<X>::value)
         {
             blockCheck();
-            new (&(dataptr[dataSlotIndex][bsize++])) X{val};
+            new (&(dataptr[dataSlotIndex][bsize])) X{val};
+            ++bsize;
             ++csize;
         }
         void push_back(X&& val) noexcept(
             std::is_nothrow_move_constructible<X>::value)
         {
             blockCheck();
-            new (&(dataptr[dataSlotIndex][bsize++])) X{std::move(val)};
+            new (&(dataptr[dataSlotIndex][bsize])) X{std::move(val)};
+            ++bsize;
             ++csize;
         }
 
-- 
2.43.0


From 5bbe27ae4f84b25a48f6d5000ac4fc7f7946a1b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:19 +0000
Subject: [PATCH 14/47] fix: StableBlockVector operations that allocate are not
 noexcept

---
 gmlc/containers/StableBlockVector.hpp | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/gmlc/containers/StableBlockVector.hpp b/gmlc/containers/StableBlockVector.hpp
index f75afe3..d365759 100644
--- a/gmlc/containers/StableBlockVector.hpp
+++ b/gmlc/containers/StableBlockVector.hpp
@@ -50,8 +50,7 @@ no erase or insert
         /** construct with a specified size*/
         explicit StableBlockVector(
             size_t startSize,
-            const X& init =
-                X{}) noexcept(std::is_nothrow_copy_constructible<X>::value) :
+            const X& init = X{}) :
             csize(startSize),
             dataptr(new X*[std::max((startSize >> N) + 1, size_t{64})]),
             dataSlotsAvailable(
@@ -142,16 +141,14 @@ no erase or insert
             ++csize;
         }
 
-        void push_back(const X& val) noexcept(
-            std::is_nothrow_copy_constructible<X>::value)
+        void push_back(const X& val)
         {
             blockCheck();
             new (&(dataptr[dataSlotIndex][bsize])) X{val};
             ++bsize;
             ++csize;
         }
-        void push_back(X&& val) noexcept(
-            std::is_nothrow_move_constructible<X>::value)
+        void push_back(X&& val)
         {
             blockCheck();
             new (&(dataptr[dataSlotIndex][bsize])) X{std::move(val)};
-- 
2.43.0


From f8e3c1bc30f2d2517651e0100d543d035e61b860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:19 +0000
Subject: [PATCH 15/47] fix: removing elements from a block container cannot
 fail

---
 gmlc/containers/StableBlockDeque.hpp  | 17 +++++++++++++----
 gmlc/containers/StableBlockVector.hpp | 17 +++++++++++++----
 2 files changed, 26 insertions(+), 8 deletions(-)

diff --git a/gmlc/containers/StableBlockDeque.hpp b/gmlc/containers/StableBlockDeque.hpp
index 484dfc8..a5a557f 100644
--- a/gmlc/containers/StableBlockDeque.hpp
+++ b/gmlc/containers/StableBlockDeque.hpp
@@ -12,6 +12,7 @@ SPDX-License-Identifier: BSD-3-Clause
 
 #include <algorithm>
 #include <memory>
+#include <new>
 #include <stdexcept>
 #include <type_traits>
 #include <utility>
@@ -554,15 +555,23 @@ and deallocate methods)*/
             }
         }
 
-        void moveBlocktoAvailable(X* ptr)
+        void moveBlocktoAvailable(X* ptr) noexcept
         {
             if (freeIndex >= freeSlotsAvailable) {
+                const size_t slots = (0 == freeSlotsAvailable) ?
+                    size_t{64} :
+                    static_cast<size_t>(freeSlotsAvailable) * 2;
+                auto mem = new (std::nothrow) X*[slots];
+                if (mem == nullptr) {
+                    // no room to keep the block so give it back
+                    Allocator a;
+                    a.deallocate(ptr, blockSize);
+                    return;
+                }
                 if (0 == freeSlotsAvailable) {
-                    freeblocks = new X*[64];
+                    freeblocks = mem;
                     freeSlotsAvailable = 64;
                 } else {
-                    auto mem =
-                        new X*[static_cast<size_t>(freeSlotsAvailable) * 2];
                     std::copy(freeblocks, freeblocks + freeSlotsAvailable, mem);
                     delete[] freeblocks;
                     freeblocks = mem;
diff --git a/gmlc/containers/StableBlockVector.hpp b/gmlc/containers/StableBlockVector.hpp
index d365759..a08ffb9 100644
--- a/gmlc/containers/StableBlockVector.hpp
+++ b/gmlc/containers/StableBlockVector.hpp
@@ -12,6 +12,7 @@ SPDX-License-Identifier: BSD-3-Clause
 
 #include <algorithm>
 #include <memory>
+#include <new>
 #include <type_traits>
 #include <utility>
 
@@ -395,15 +396,23 @@ no erase or insert
             }
         }
 
-        void moveBlocktoAvailable(X* ptr)
+        void moveBlocktoAvailable(X* ptr) noexcept
         {
             if (freeIndex >= freeSlotsAvailable) {
+                const size_t slots = (0 == freeSlotsAvailable) ?
+                    size_t{64} :
+                    static_cast<size_t>(freeSlotsAvailable) * 2;
+                auto mem = new (std::nothrow) X*[slots];
+                if (mem == nullptr) {
+                    // no room to keep the block so give it back
+                    Allocator a;
+                    a.deallocate(ptr, blockSize);
+                    return;
+                }
                 if (0 == freeSlotsAvailable) {
-                    freeblocks = new X*[64];
+                    freeblocks = mem;
                     freeSlotsAvailable = 64;
                 } else {
-                    auto mem =
-                        new X*[static_cast<size_t>(freeSlotsAvailable) * 2];
                     std::copy(freeblocks, freeblocks + freeSlotsAvailable, mem);
                     delete[] freeblocks;
                     freeblocks = mem;
-- 
2.43.0


From 745bdfd22501c68b367d19ac108916036a18b587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:40 +0000
Subject: [PATCH 16/47] fix: a failing allocation leaves a block container as
 it was

---
 gmlc/containers/StableBlockDeque.hpp  | 16 ++++++++++------
 gmlc/containers/StableBlockVector.hpp | 14 ++++++++++----
 2 files changed, 20 insertions(+), 10 deletions(-)

diff --git a/gmlc/containers/StableBlockDeque.hpp b/gmlc/containers/StableBlockDeque.hpp
index a5a557f..3b8c863 100644
--- a/gmlc/containers/StableBlockDeque.hpp
+++ b/gmlc/containers/StableBlockDeque.hpp
@@ -483,12 +483,13 @@ and deallocate methods)*/
         {
             if (bsize >= static_cast<int>(blockSize)) {
                 if (0 == dataSlotsAvailable) {
-                    dataptr = new X*[64];
+                    std::unique_ptr<X*[]> mem(new X*[64]);
+                    mem[30] = getNewBlock();
+                    dataptr = mem.release();
                     dataSlotsAvailable = 64;
                     dataSlotFront = dataSlotBack = 30;
                     fsize = blockSize / 2 - 1;
                     bsize = fsize + 1;
-                    dataptr[dataSlotBack] = getNewBlock();
                     return;
                 }
                 if (dataSlotBack >= dataSlotsAvailable - 1) {
@@ -509,7 +510,8 @@ and deallocate methods)*/
                         dataSlotsAvailable *= 2;
                     }
                 }
-                dataptr[++dataSlotBack] = getNewBlock();
+                dataptr[dataSlotBack + 1] = getNewBlock();
+                ++dataSlotBack;
                 bsize = 0;
             }
         }
@@ -518,12 +520,13 @@ and deallocate methods)*/
         {
             if (fsize < 0) {
                 if (0 == dataSlotsAvailable) {
-                    dataptr = new X*[64];
+                    std::unique_ptr<X*[]> mem(new X*[64]);
+                    mem[30] = getNewBlock();
+                    dataptr = mem.release();
                     dataSlotsAvailable = 64;
                     dataSlotFront = dataSlotBack = 30;
                     fsize = blockSize / 2 - 1;
                     bsize = fsize + 1;
-                    dataptr[dataSlotBack] = getNewBlock();
                     return;
                 }
                 if (dataSlotFront == 0) {
@@ -550,7 +553,8 @@ and deallocate methods)*/
                     }
                     dataSlotBack = dataSlotFront + diff;
                 }
-                dataptr[--dataSlotFront] = getNewBlock();
+                dataptr[dataSlotFront - 1] = getNewBlock();
+                --dataSlotFront;
                 fsize = blockSize - 1;
             }
         }
diff --git a/gmlc/containers/StableBlockVector.hpp b/gmlc/containers/StableBlockVector.hpp
index a08ffb9..ae2609c 100644
--- a/gmlc/containers/StableBlockVector.hpp
+++ b/gmlc/containers/StableBlockVector.hpp
@@ -380,10 +380,15 @@ no erase or insert
         {
             if (bsize >= static_cast<int>(blockSize)) {
                 if (0 == dataSlotsAvailable) {
-                    dataptr = new X*[64];
+                    std::unique_ptr<X*[]> mem(new X*[64]);
+                    mem[0] = getNewBlock();
+                    dataptr = mem.release();
                     dataSlotsAvailable = 64;
-                    dataSlotIndex = -1;
-                } else if (dataSlotIndex >= dataSlotsAvailable - 1) {
+                    dataSlotIndex = 0;
+                    bsize = 0;
+                    return;
+                }
+                if (dataSlotIndex >= dataSlotsAvailable - 1) {
                     auto mem =
                         new X*[static_cast<size_t>(dataSlotsAvailable) * 2];
                     std::copy(dataptr, dataptr + dataSlotsAvailable, mem);
@@ -391,7 +396,8 @@ no erase or insert
                     dataptr = mem;
                     dataSlotsAvailable *= 2;
                 }
-                dataptr[++dataSlotIndex] = getNewBlock();
+                dataptr[dataSlotIndex + 1] = getNewBlock();
+                ++dataSlotIndex;
                 bsize = 0;
             }
         }
-- 
2.43.0


From 6542047dbfbdfc5f8e6149c08b272a323d2a2e59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:40 +0000
Subject: [PATCH 17/47] fix: first push_front of a StableBlockDeque with one
 element per block

---
 gmlc/containers/StableBlockDeque.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gmlc/containers/StableBlockDeque.hpp b/gmlc/containers/StableBlockDeque.hpp
index 3b8c863..5c833b1 100644
--- a/gmlc/containers/StableBlockDeque.hpp
+++ b/gmlc/containers/StableBlockDeque.hpp
@@ -525,7 +525,7 @@ and deallocate methods)*/
                     dataptr = mem.release();
                     dataSlotsAvailable = 64;
                     dataSlotFront = dataSlotBack = 30;
-                    fsize = blockSize / 2 - 1;
+                    fsize = blockSize / 2;
                     bsize = fsize + 1;
                     return;
                 }
-- 
2.43.0


From 2fa8f32243b78f892a5528e1a91e9736ee7d4c98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:20 +0000
Subject: [PATCH 18/47] fix: iterating a block container whose block table is
 full stays inside the table

---
 gmlc/containers/StableBlockDeque.hpp  | 10 ++++++----
 gmlc/containers/StableBlockVector.hpp |  4 ++--
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/gmlc/containers/StableBlockDeque.hpp b/gmlc/containers/StableBlockDeque.hpp
index 5c833b1..5e18756 100644
--- a/gmlc/containers/StableBlockDeque.hpp
+++ b/gmlc/containers/StableBlockDeque.hpp
@@ -483,7 +483,7 @@ and deallocate methods)*/
         {
             if (bsize >= static_cast<int>(blockSize)) {
                 if (0 == dataSlotsAvailable) {
-                    std::unique_ptr<X*[]> mem(new X*[64]);
+                    std::unique_ptr<X*[]> mem(new X*[64 + 1]);
                     mem[30] = getNewBlock();
                     dataptr = mem.release();
                     dataSlotsAvailable = 64;
@@ -503,7 +503,8 @@ and deallocate methods)*/
                         dataSlotBack = dataSlotFront + diff;
                     } else {
                         auto mem =
-                            new X*[static_cast<size_t>(dataSlotsAvailable) * 2];
+                            new X*[static_cast<size_t>(dataSlotsAvailable) * 2 +
+                                   1];
                         std::copy(dataptr, dataptr + dataSlotsAvailable, mem);
                         delete[] dataptr;
                         dataptr = mem;
@@ -520,7 +521,7 @@ and deallocate methods)*/
         {
             if (fsize < 0) {
                 if (0 == dataSlotsAvailable) {
-                    std::unique_ptr<X*[]> mem(new X*[64]);
+                    std::unique_ptr<X*[]> mem(new X*[64 + 1]);
                     mem[30] = getNewBlock();
                     dataptr = mem.release();
                     dataSlotsAvailable = 64;
@@ -541,7 +542,8 @@ and deallocate methods)*/
                         dataSlotFront = (dataSlotsAvailable - dataSlotBack) / 2;
                     } else {
                         auto mem =
-                            new X*[static_cast<std::size_t>(dataSlotsAvailable) * 2];
+                            new X*[static_cast<std::size_t>(dataSlotsAvailable) * 2 +
+                                   1];
                         std::copy(
                             dataptr,
                             dataptr + dataSlotBack + 1,
diff --git a/gmlc/containers/StableBlockVector.hpp b/gmlc/containers/StableBlockVector.hpp
index ae2609c..5c98053 100644
--- a/gmlc/containers/StableBlockVector.hpp
+++ b/gmlc/containers/StableBlockVector.hpp
@@ -380,7 +380,7 @@ no erase or insert
         {
             if (bsize >= static_cast<int>(blockSize)) {
                 if (0 == dataSlotsAvailable) {
-                    std::unique_ptr<X*[]> mem(new X*[64]);
+                    std::unique_ptr<X*[]> mem(new X*[64 + 1]);
                     mem[0] = getNewBlock();
                     dataptr = mem.release();
                     dataSlotsAvailable = 64;
@@ -390,7 +390,7 @@ no erase or insert
                 }
                 if (dataSlotIndex >= dataSlotsAvailable - 1) {
                     auto mem =
-                        new X*[static_cast<size_t>(dataSlotsAvailable) * 2];
+                        new X*[static_cast<size_t>(dataSlotsAvailable) * 2 + 1];
                     std::copy(dataptr, dataptr + dataSlotsAvailable, mem);
                     delete[] dataptr;
                     dataptr = mem;
-- 
2.43.0


From ec83ec3ce9a5d135ab0a723ccece82c24dddabbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:20 +0000
Subject: [PATCH 19/47] fix: constructing or copying a block container frees
 everything on failure

---
 gmlc/containers/StableBlockDeque.hpp  | 82 +++------------------------
 gmlc/containers/StableBlockVector.hpp | 41 +++-----------
 2 files changed, 15 insertions(+), 108 deletions(-)

diff --git a/gmlc/containers/StableBlockDeque.hpp b/gmlc/containers/StableBlockDeque.hpp
index 5e18756..b9c8375 100644
--- a/gmlc/containers/StableBlockDeque.hpp
+++ b/gmlc/containers/StableBlockDeque.hpp
@@ -50,86 +50,18 @@ and deallocate methods)*/
 
         /** construct with a specified size*/
         StableBlockDeque(size_t startSize, const X& init = X{}) :
-            csize(startSize),
-            dataptr(new X*[std::max((startSize >> N) + 2, size_t{64})]),
-            dataSlotsAvailable(
-                std::max(static_cast<int>(startSize >> N) + 2, 64))
+            StableBlockDeque()
         {
-            Allocator a;
-            if (startSize == 0) {
-                dataSlotFront = dataSlotBack = 30;
-                dataptr[30] = a.allocate(blockSize);
-                bsize = fsize = blockSize / 2;
-            } else {
-                int blocks = static_cast<int>((startSize >> N));
-                if (blocks > 0) {
-                    blocks += 1;
-                } else if (startSize > blockSize / 2 - 2) {
-                    blocks = 1;
-                }
-
-                if (blocks == 0) {
-                    dataSlotFront = dataSlotBack = 30;
-                    fsize = blockSize / 2 - static_cast<int>(startSize / 2) - 1;
-                    bsize = fsize + static_cast<int>(startSize) + 1;
-                } else if (blocks == 1) {
-                    dataSlotFront = 30;
-                    dataSlotBack = 31;
-                    fsize = blockSize - static_cast<int>(startSize / 2) - 1;
-                    bsize = static_cast<int>(startSize - (startSize / 2));
-                } else {
-                    dataSlotFront = (dataSlotsAvailable - blocks) / 2;
-                    dataSlotBack = dataSlotFront + blocks;
-                    auto med = startSize - (startSize >> N) * blockSize;
-                    fsize = blockSize - static_cast<int>(med / 2) - 1;
-                    bsize = static_cast<int>(med - (med / 2));
-                }
-
-                dataptr[dataSlotFront] = a.allocate(blockSize);
-                if (dataSlotBack > dataSlotFront) {
-                    for (int jj = fsize + 1; jj < static_cast<int>(blockSize);
-                         ++jj) {
-                        new (&dataptr[dataSlotFront][jj]) X{init};
-                    }
-                } else {
-                    for (int jj = fsize + 1; jj < bsize; ++jj) {
-                        new (&dataptr[dataSlotFront][jj]) X{init};
-                    }
-                }
-                for (int ii = dataSlotFront + 1; ii <= dataSlotBack - 1; ++ii) {
-                    dataptr[ii] = a.allocate(blockSize);
-                    for (int jj = 0; jj < static_cast<int>(blockSize); ++jj) {
-                        new (&dataptr[ii][jj]) X{init};
-                    }
-                }
-                if (dataSlotBack > dataSlotFront) {
-                    dataptr[dataSlotBack] = a.allocate(blockSize);
-                    for (int jj = 0; jj < bsize; ++jj) {
-                        new (&dataptr[dataSlotBack][jj]) X{init};
-                    }
-                }
+            // the delegated constructor is complete so the destructor cleans up
+            // if an allocation or an element constructor fails
+            while (csize < startSize) {
+                push_back(init);
             }
         }
 
-        StableBlockDeque(const StableBlockDeque& sbd) :
-            dataptr(new X*[std::max(
-                static_cast<size_t>(sbd.dataSlotsAvailable),
-                size_t{64})]),
-            dataSlotsAvailable(std::max(sbd.dataSlotsAvailable, 64))
+        StableBlockDeque(const StableBlockDeque& sbd) : StableBlockDeque()
         {
-            if (sbd.dataptr != nullptr) {
-                dataSlotFront = sbd.dataSlotFront;
-                dataSlotBack = dataSlotFront;
-                fsize = sbd.fsize;
-                bsize = sbd.fsize + 1;
-                dataptr[dataSlotFront] = getNewBlock();
-                assign(sbd.begin(), sbd.end());
-            } else {
-                Allocator a;
-                dataSlotFront = dataSlotBack = 30;
-                dataptr[30] = a.allocate(blockSize);
-                bsize = fsize = blockSize / 2;
-            }
+            assign(sbd.begin(), sbd.end());
         }
         StableBlockDeque(StableBlockDeque&& sbd) noexcept :
             csize(sbd.csize), dataptr(sbd.dataptr),
diff --git a/gmlc/containers/StableBlockVector.hpp b/gmlc/containers/StableBlockVector.hpp
index 5c98053..73fdf84 100644
--- a/gmlc/containers/StableBlockVector.hpp
+++ b/gmlc/containers/StableBlockVector.hpp
@@ -49,44 +49,19 @@ no erase or insert
         StableBlockVector() noexcept {}
 
         /** construct with a specified size*/
-        explicit StableBlockVector(
-            size_t startSize,
-            const X& init = X{}) :
-            csize(startSize),
-            dataptr(new X*[std::max((startSize >> N) + 1, size_t{64})]),
-            dataSlotsAvailable(
-                std::max(static_cast<int>(startSize >> N) + 1, 64)),
-            dataSlotIndex(static_cast<int>(startSize >> N)),
-            bsize(static_cast<int>(startSize & cntmask))
+        explicit StableBlockVector(size_t startSize, const X& init = X{}) :
+            StableBlockVector()
         {
-            Allocator a;
-            if (startSize == 0) {
-                dataptr[0] = a.allocate(blockSize);
-            } else {
-                for (int ii = 0; ii <= dataSlotIndex; ++ii) {
-                    dataptr[ii] = a.allocate(blockSize);
-                    if (ii < dataSlotIndex) {
-                        for (int jj = 0; jj < static_cast<int>(blockSize);
-                             ++jj) {
-                            new (&dataptr[ii][jj]) X{init};
-                        }
-                    } else {
-                        for (int jj = 0; jj < bsize; ++jj) {
-                            new (&dataptr[ii][jj]) X{init};
-                        }
-                    }
-                }
+            // the delegated constructor is complete so the destructor cleans up
+            // if an allocation or an element constructor fails
+            while (csize < startSize) {
+                push_back(init);
             }
         }
 
-        StableBlockVector(const StableBlockVector& sbv)
+        StableBlockVector(const StableBlockVector& sbv) : StableBlockVector()
         {
-            if (sbv.dataptr != nullptr) {
-                dataptr = new X*[sbv.dataSlotsAvailable];
-                dataSlotsAvailable = sbv.dataSlotsAvailable;
-                dataSlotIndex = -1;
-                assign(sbv.begin(), sbv.end());
-            }
+            assign(sbv.begin(), sbv.end());
         }
 
         StableBlockVector(StableBlockVector&& sbv) noexcept :
-- 
2.43.0


From 16f412b914bc63e02bfcc513fd246fe2af3b7d6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:20 +0000
Subject: [PATCH 20/47] fix: a moved from block container is empty and usable

---
 gmlc/containers/StableBlockDeque.hpp  | 6 ++++++
 gmlc/containers/StableBlockVector.hpp | 9 +++++++--
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/gmlc/containers/StableBlockDeque.hpp b/gmlc/containers/StableBlockDeque.hpp
index b9c8375..10f5ea6 100644
--- a/gmlc/containers/StableBlockDeque.hpp
+++ b/gmlc/containers/StableBlockDeque.hpp
@@ -75,7 +75,10 @@ and deallocate methods)*/
             sbd.freeSlotsAvailable = 0;
             sbd.dataSlotsAvailable = 0;
             sbd.dataptr = nullptr;
+            sbd.bsize = blockSize;
             sbd.fsize = -1;
+            sbd.dataSlotFront = sbd.dataSlotBack = 0;
+            sbd.freeIndex = 0;
             sbd.csize = 0;
         }
 
@@ -102,7 +105,10 @@ and deallocate methods)*/
             sbd.freeSlotsAvailable = 0;
             sbd.dataSlotsAvailable = 0;
             sbd.dataptr = nullptr;
+            sbd.bsize = blockSize;
             sbd.fsize = -1;
+            sbd.dataSlotFront = sbd.dataSlotBack = 0;
+            sbd.freeIndex = 0;
             sbd.csize = 0;
             return *this;
         }
diff --git a/gmlc/containers/StableBlockVector.hpp b/gmlc/containers/StableBlockVector.hpp
index 73fdf84..9f09a45 100644
--- a/gmlc/containers/StableBlockVector.hpp
+++ b/gmlc/containers/StableBlockVector.hpp
@@ -75,8 +75,9 @@ no erase or insert
             sbv.freeSlotsAvailable = 0;
             sbv.dataSlotsAvailable = 0;
             sbv.dataptr = nullptr;
-            sbv.bsize = 0;
-            sbv.dataSlotIndex = -1;
+            sbv.bsize = blockSize;
+            sbv.dataSlotIndex = 0;
+            sbv.freeIndex = 0;
             sbv.csize = 0;
         }
 
@@ -101,6 +102,10 @@ no erase or insert
             sbv.freeSlotsAvailable = 0;
             sbv.dataSlotsAvailable = 0;
             sbv.dataptr = nullptr;
+            sbv.bsize = blockSize;
+            sbv.dataSlotIndex = 0;
+            sbv.freeIndex = 0;
+            sbv.csize = 0;
 
             return *this;
         }
-- 
2.43.0


From 142e5ae8734ef0a0a000f2384954bfb8850ca96d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:20 +0000
Subject: [PATCH 21/47] fix: clearing a StableBlockDeque destroys only elements
 that exist

---
 gmlc/containers/StableBlockDeque.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gmlc/containers/StableBlockDeque.hpp b/gmlc/containers/StableBlockDeque.hpp
index 10f5ea6..1318551 100644
--- a/gmlc/containers/StableBlockDeque.hpp
+++ b/gmlc/containers/StableBlockDeque.hpp
@@ -266,7 +266,9 @@ and deallocate methods)*/
             if (dataSlotsAvailable == 0 || csize == 0) {
                 return;
             }
-            for (int jj = bsize - 1; jj >= 0;
+            // the last block may also be the first
+            const int lower = (dataSlotFront < dataSlotBack) ? 0 : fsize + 1;
+            for (int jj = bsize - 1; jj >= lower;
                  --jj) {  // call destructors on the last block
                 dataptr[dataSlotBack][jj].~X();
             }
-- 
2.43.0


From 48f7a4f43426956444e966298e2aa5418359da39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:36 +0000
Subject: [PATCH 22/47] fix: a CircularBuffer emptied near the end of its
 memory is empty

---
 gmlc/containers/CircularBuffer.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/gmlc/containers/CircularBuffer.hpp b/gmlc/containers/CircularBuffer.hpp
index 7b91658..89022da 100644
--- a/gmlc/containers/CircularBuffer.hpp
+++ b/gmlc/containers/CircularBuffer.hpp
@@ -112,7 +112,10 @@ namespace containers {
             if (size <= maxSize) {
                 memcpy(data, next_read + sizeof(int), size);
                 next_read += static_cast<size_t>(size) + sizeof(int);
-                if ((capacity_ - (next_read - origin)) < 8) {
+                if (next_read == next_write) {
+                    // that was the last block, both positions move together
+                    clear();
+                } else if ((capacity_ - (next_read - origin)) < 8) {
                     next_read = origin;
                 }
                 return size;
-- 
2.43.0


From 3c166766c18aa7e06c9c7c14e680d04ae0a88fde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:11 +0000
Subject: [PATCH 23/47] fix: a full CircularBuffer is not taken for an empty
 one

---
 gmlc/containers/CircularBuffer.hpp | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/gmlc/containers/CircularBuffer.hpp b/gmlc/containers/CircularBuffer.hpp
index 89022da..2836de2 100644
--- a/gmlc/containers/CircularBuffer.hpp
+++ b/gmlc/containers/CircularBuffer.hpp
@@ -29,7 +29,7 @@ namespace containers {
         int capacity() const { return capacity_; }
         bool isSpaceAvailable(int sz) const
         {
-            if (next_write >= next_read) {
+            if (!wrapped()) {
                 if ((capacity_ - (next_write - origin)) >=
                     static_cast<ptrdiff_t>(sz) + 4) {
                     return true;
@@ -50,7 +50,7 @@ namespace containers {
             if (blockSize <= 0 || data == nullptr) {
                 return false;
             }
-            if (next_write >= next_read) {
+            if (!wrapped()) {
                 if ((capacity_ - (next_write - origin)) >=
                     static_cast<ptrdiff_t>(blockSize) + 4) {
                     memcpy(next_write, &blockSize, sizeof(int));
@@ -72,6 +72,7 @@ namespace containers {
                     memcpy(origin, &blockSize, sizeof(int));
                     memcpy(origin + 4, data, blockSize);
                     next_write = origin + blockSize + 4;
+                    full = (next_write == next_read);
                     return true;
                 }
             } else if (
@@ -80,13 +81,14 @@ namespace containers {
                 memcpy(next_write, &blockSize, sizeof(int));
                 memcpy(next_write + 4, data, blockSize);
                 next_write += static_cast<ptrdiff_t>(blockSize) + 4;
+                full = (next_write == next_read);
                 return true;
             }
             return false;
         }
         int nextDataSize() const
         {
-            if (next_write == next_read) {
+            if (empty()) {
                 return 0;
             }
             int size;
@@ -100,18 +102,20 @@ namespace containers {
         /// insuffient space available
         int pop(unsigned char* data, int maxSize)
         {
-            if (next_write == next_read) {
+            if (empty()) {
                 return 0;
             }
             int size;
             memcpy(&size, next_read, sizeof(int));
             if (size < 0) {
                 next_read = origin;
+                full = false;
                 memcpy(&size, next_read, sizeof(int));
             }
             if (size <= maxSize) {
                 memcpy(data, next_read + sizeof(int), size);
                 next_read += static_cast<size_t>(size) + sizeof(int);
+                full = false;
                 if (next_read == next_write) {
                     // that was the last block, both positions move together
                     clear();
@@ -123,15 +127,23 @@ namespace containers {
             return -size;
         }
         /** check if the block is Empty or not*/
-        bool empty() const { return (next_write == next_read); }
+        bool empty() const { return (next_write == next_read && !full); }
         /** clear the buffer*/
-        void clear() { next_write = next_read = origin; }
+        void clear()
+        {
+            next_write = next_read = origin;
+            full = false;
+        }
 
       private:
+        /// true if the data continues at the origin
+        bool wrapped() const { return (next_write < next_read || full); }
+
         unsigned char* origin;
         unsigned char* next_write;
         unsigned char* next_read;
         int capacity_{0};
+        bool full{false};  //!< set if the positions are equal but not empty
 
       private:
         friend class CircularBuffer;
@@ -163,6 +175,7 @@ namespace containers {
             cb.buffer.origin = nullptr;
             cb.buffer.next_read = nullptr;
             cb.buffer.next_write = nullptr;
+            cb.buffer.full = false;
         }
         CircularBuffer(const CircularBuffer& cb) :
             data{new unsigned char[cb.actualSize]}, actualSize{cb.actualSize},
@@ -197,6 +210,7 @@ namespace containers {
             cb.buffer.origin = nullptr;
             cb.buffer.next_read = nullptr;
             cb.buffer.next_write = nullptr;
+            cb.buffer.full = false;
             cb.data = nullptr;
             cb.actualSize = 0;
             cb.actualCapacity = 0;
@@ -245,6 +259,7 @@ namespace containers {
                     buffer.next_write = buffer.origin + write_offset;
                     buffer.next_read = buffer.origin + newsize - readDiff;
                     buffer.capacity_ = newsize;
+                    buffer.full = false;
                 }
             } else {  // smaller size
                 int read_offset =
-- 
2.43.0


From 7a67c27f10304894b7b767839c84f9aafd49121f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:36 +0000
Subject: [PATCH 24/47] fix: small blocks near the end of a CircularBuffer are
 not skipped or overrun

---
 gmlc/containers/CircularBuffer.hpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/gmlc/containers/CircularBuffer.hpp b/gmlc/containers/CircularBuffer.hpp
index 2836de2..724b8ae 100644
--- a/gmlc/containers/CircularBuffer.hpp
+++ b/gmlc/containers/CircularBuffer.hpp
@@ -58,8 +58,8 @@ namespace containers {
                     memcpy(next_write + 4, data, blockSize);
                     next_write += static_cast<ptrdiff_t>(blockSize) + 4;
                     // loop around if there isn't really space for another block
-                    // of at least 4 bytes and the next_read>origin
-                    if (((capacity_ - (next_write - origin)) < 8) &&
+                    // and the next_read>origin
+                    if (((capacity_ - (next_write - origin)) < minBlock) &&
                         (next_read > origin)) {
                         next_write = origin;
                     }
@@ -67,8 +67,11 @@ namespace containers {
                 } else if (
                     (next_read - origin) >=
                     static_cast<ptrdiff_t>(blockSize) + 4) {
-                    int loc = -1;
-                    memcpy(next_write, &loc, sizeof(int));
+                    if ((capacity_ - (next_write - origin)) >= minBlock) {
+                        // pop never looks for a block in less space than this
+                        int loc = -1;
+                        memcpy(next_write, &loc, sizeof(int));
+                    }
                     memcpy(origin, &blockSize, sizeof(int));
                     memcpy(origin + 4, data, blockSize);
                     next_write = origin + blockSize + 4;
@@ -119,7 +122,7 @@ namespace containers {
                 if (next_read == next_write) {
                     // that was the last block, both positions move together
                     clear();
-                } else if ((capacity_ - (next_read - origin)) < 8) {
+                } else if ((capacity_ - (next_read - origin)) < minBlock) {
                     next_read = origin;
                 }
                 return size;
@@ -139,6 +142,8 @@ namespace containers {
         /// true if the data continues at the origin
         bool wrapped() const { return (next_write < next_read || full); }
 
+        /// the space taken by the smallest possible block
+        static constexpr ptrdiff_t minBlock{sizeof(int) + 1};
         unsigned char* origin;
         unsigned char* next_write;
         unsigned char* next_read;
-- 
2.43.0


From b7ec8f7a0cd7345464c00db22d496891ec4e30a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:36 +0000
Subject: [PATCH 25/47] fix: a buffer assignment that runs out of memory does
 not share memory

---
 gmlc/containers/CircularBuffer.hpp | 2 +-
 gmlc/containers/StackBuffer.hpp    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/gmlc/containers/CircularBuffer.hpp b/gmlc/containers/CircularBuffer.hpp
index 724b8ae..f2d4557 100644
--- a/gmlc/containers/CircularBuffer.hpp
+++ b/gmlc/containers/CircularBuffer.hpp
@@ -223,8 +223,8 @@ namespace containers {
         }
         CircularBuffer& operator=(const CircularBuffer& cb)
         {
-            buffer = cb.buffer;
             resizeMemory(cb.actualSize, false);
+            buffer = cb.buffer;
             std::memcpy(data, cb.data, cb.actualSize);
 
             auto read_offset = buffer.next_read - buffer.origin;
diff --git a/gmlc/containers/StackBuffer.hpp b/gmlc/containers/StackBuffer.hpp
index 7659a00..d4dd4ab 100644
--- a/gmlc/containers/StackBuffer.hpp
+++ b/gmlc/containers/StackBuffer.hpp
@@ -201,8 +201,8 @@ blocks of raw data
         }
         StackBuffer& operator=(const StackBuffer& sq)
         {
-            stack = sq.stack;
             resizeMemory(sq.statedSize, false);
+            stack = sq.stack;
             std::memcpy(data, sq.data, sq.statedSize);
 
             auto offset = stack.next - stack.origin;
-- 
2.43.0


From 3d2112a8affc7f845880c7e2ca55c922feda2b32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:36 +0000
Subject: [PATCH 26/47] fix: resizing a StackBuffer with data in it keeps its
 free space usable

---
 gmlc/containers/StackBuffer.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gmlc/containers/StackBuffer.hpp b/gmlc/containers/StackBuffer.hpp
index d4dd4ab..0fe0c4c 100644
--- a/gmlc/containers/StackBuffer.hpp
+++ b/gmlc/containers/StackBuffer.hpp
@@ -226,6 +226,7 @@ blocks of raw data
                 resizeMemory(newsize);
                 stack = StackBufferRaw(data, newsize);
             } else if (newsize > statedSize) {
+                const auto offset = stack.next - stack.origin;
                 resizeMemory(newsize);
                 int indexOffset = stack.dataSize - diSize * stack.dataCount;
                 int newOffset = newsize - diSize * stack.dataCount;
@@ -236,7 +237,7 @@ blocks of raw data
                         static_cast<size_t>(stack.dataCount));
                 stack.dataSize = newsize;
                 stack.origin = data;
-                stack.next = stack.origin + newsize;
+                stack.next = stack.origin + offset;
                 stack.nextIndex = reinterpret_cast<dataIndex*>(
                     stack.origin + stack.dataSize - diSize);
                 stack.nextIndex -= stack.dataCount;
@@ -257,7 +258,7 @@ blocks of raw data
                         static_cast<size_t>(stack.dataCount));
                 stack.dataSize = newsize;
                 stack.origin = data;
-                stack.next = stack.origin + newsize;
+                stack.next = stack.origin + dataOffset;
                 stack.nextIndex = reinterpret_cast<dataIndex*>(
                     stack.origin + stack.dataSize - diSize);
                 stack.nextIndex -= stack.dataCount;
-- 
2.43.0


From 7cd03b104eb3f4e9e178c7ec5859b39c97fe9340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:36 +0000
Subject: [PATCH 27/47] fix: a move assigned from StackBuffer does not claim
 memory it no longer has

---
 gmlc/containers/StackBuffer.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gmlc/containers/StackBuffer.hpp b/gmlc/containers/StackBuffer.hpp
index 0fe0c4c..c4cbde2 100644
--- a/gmlc/containers/StackBuffer.hpp
+++ b/gmlc/containers/StackBuffer.hpp
@@ -192,6 +192,7 @@ blocks of raw data
             stack = std::move(sq.stack);
             sq.data = nullptr;
             sq.statedSize = 0;
+            sq.actualCapacity = 0;
             sq.stack.dataSize = 0;
             sq.stack.origin = nullptr;
             sq.stack.next = nullptr;
-- 
2.43.0


From 6decedfecfce696b23053a5fab4d23e93dc48de0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:48 +0000
Subject: [PATCH 28/47] fix: buffers of size zero release their memory exactly
 once

---
 gmlc/containers/CircularBuffer.hpp | 15 ++++++---------
 gmlc/containers/StackBuffer.hpp    |  9 +++------
 2 files changed, 9 insertions(+), 15 deletions(-)

diff --git a/gmlc/containers/CircularBuffer.hpp b/gmlc/containers/CircularBuffer.hpp
index f2d4557..7e1272d 100644
--- a/gmlc/containers/CircularBuffer.hpp
+++ b/gmlc/containers/CircularBuffer.hpp
@@ -165,9 +165,8 @@ namespace containers {
         }
         ~CircularBuffer()
         {
-            if (actualCapacity > 0) {
-                delete[] data;
-            }
+            // an allocation of size 0 has to be released as well
+            delete[] data;
         }
         CircularBuffer(CircularBuffer&& cb) noexcept :
             data{cb.data}, actualSize(cb.actualSize),
@@ -195,6 +194,7 @@ namespace containers {
                 buffer.next_write = buffer.origin + write_offset;
             } else {
                 delete[] data;
+                data = nullptr;
                 actualSize = 0;
                 actualCapacity = 0;
             }
@@ -338,13 +338,10 @@ namespace containers {
         {
             if (newsize > actualCapacity) {
                 auto buf = new unsigned char[newsize];
-                if (actualCapacity > 0) {
-                    if (copyData) {
-                        memcpy(buf, data, actualSize);
-                    }
-
-                    delete[] data;
+                if (actualCapacity > 0 && copyData) {
+                    memcpy(buf, data, actualSize);
                 }
+                delete[] data;
                 data = buf;
                 actualCapacity = newsize;
             }
diff --git a/gmlc/containers/StackBuffer.hpp b/gmlc/containers/StackBuffer.hpp
index c4cbde2..7f2d29d 100644
--- a/gmlc/containers/StackBuffer.hpp
+++ b/gmlc/containers/StackBuffer.hpp
@@ -317,13 +317,10 @@ blocks of raw data
             }
             if (newsize > actualCapacity) {
                 auto buf = new unsigned char[newsize];
-                if (actualCapacity > 0) {
-                    if (copyData) {
-                        memcpy(buf, data, statedSize);
-                    }
-
-                    delete[] data;
+                if (actualCapacity > 0 && copyData) {
+                    memcpy(buf, data, statedSize);
                 }
+                delete[] data;
                 data = buf;
                 actualCapacity = newsize;
             }
-- 
2.43.0


From 103839df3b55079c0c96d3546d2b3f8c39095c77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:40 +0000
Subject: [PATCH 29/47] fix: removing an element of a mapped container removes
 its keys and no others

---
 gmlc/containers/DualMappedPointerVector.hpp | 68 ++-------------------
 gmlc/containers/DualMappedVector.hpp        | 33 +---------
 gmlc/containers/DualStringMappedVector.hpp  | 33 +---------
 gmlc/containers/MapTraits.hpp               | 26 ++++++++
 gmlc/containers/MappedPointerVector.hpp     | 22 +------
 gmlc/containers/MappedVector.hpp            | 23 +------
 gmlc/containers/StringMappedVector.hpp      | 23 +------
 7 files changed, 40 insertions(+), 188 deletions(-)

diff --git a/gmlc/containers/DualMappedPointerVector.hpp b/gmlc/containers/DualMappedPointerVector.hpp
index 5f47c19..7e614c4 100644
--- a/gmlc/containers/DualMappedPointerVector.hpp
+++ b/gmlc/containers/DualMappedPointerVector.hpp
@@ -251,30 +251,8 @@ namespace containers {
                 return;
             }
             dataStorage.erase(dataStorage.begin() + index);
-            searchType1 ind1;
-            searchType2 ind2;
-            for (auto& el2 : lookup1) {
-                if (el2.second > index) {
-                    el2.second -= 1;
-                } else if (el2.second == index) {
-                    ind1 = el2.first;
-                }
-            }
-            for (auto& el2 : lookup2) {
-                if (el2.second > index) {
-                    el2.second -= 1;
-                } else if (el2.second == index) {
-                    ind2 = el2.first;
-                }
-            }
-            auto fnd1 = lookup1.find(ind1);
-            if (fnd1 != lookup1.end()) {
-                lookup1.erase(fnd1);
-            }
-            auto fnd2 = lookup2.find(ind2);
-            if (fnd2 != lookup2.end()) {
-                lookup2.erase(fnd2);
-            }
+            detail::eraseIndex(lookup1, index, true);
+            detail::eraseIndex(lookup2, index, true);
         }
 
         void remove(const searchType1& search)
@@ -283,26 +261,7 @@ namespace containers {
             if (el == lookup1.end()) {
                 return;
             }
-            auto index = el->second;
-            dataStorage.erase(dataStorage.begin() + index);
-            for (auto& el2 : lookup1) {
-                if (el2.second > index) {
-                    el2.second -= 1;
-                }
-            }
-            lookup1.erase(el);
-            searchType2 ind2;
-            for (auto& el2 : lookup2) {
-                if (el2.second > index) {
-                    el2.second -= 1;
-                } else if (el2.second == index) {
-                    ind2 = el2.first;
-                }
-            }
-            auto fnd2 = lookup2.find(ind2);
-            if (fnd2 != lookup2.end()) {
-                lookup2.erase(fnd2);
-            }
+            removeIndex(el->second);
         }
 
         void remove(const searchType2& search)
@@ -311,26 +270,7 @@ namespace containers {
             if (el == lookup2.end()) {
                 return;
             }
-            auto index = el->second;
-            dataStorage.erase(dataStorage.begin() + index);
-            for (auto& el2 : lookup2) {
-                if (el2.second > index) {
-                    el2.second -= 1;
-                }
-            }
-            lookup2.erase(el);
-            searchType1 ind1;
-            for (auto& el2 : lookup1) {
-                if (el2.second > index) {
-                    el2.second -= 1;
-                } else if (el2.second == index) {
-                    ind1 = el2.first;
-                }
-            }
-            auto fnd1 = lookup1.find(ind1);
-            if (fnd1 != lookup1.end()) {
-                lookup1.erase(fnd1);
-            }
+            removeIndex(el->second);
         }
 
         /** apply a function to all the values
diff --git a/gmlc/containers/DualMappedVector.hpp b/gmlc/containers/DualMappedVector.hpp
index 4e12cf6..381fce7 100644
--- a/gmlc/containers/DualMappedVector.hpp
+++ b/gmlc/containers/DualMappedVector.hpp
@@ -303,37 +303,8 @@ or by numerical index
                 return;
             }
             auto erased = localErase(dataStorage, index);
-
-            std::vector<searchType1> ind1;
-            for (auto& searchterm : lookup1) {
-                if (erased && searchterm.second > index) {
-                    searchterm.second -= 1;
-                } else if (searchterm.second == index) {
-                    ind1.push_back(searchterm.first);
-                }
-            }
-            std::vector<searchType2> ind2;
-            for (auto& searchterm : lookup2) {
-                if (erased && searchterm.second > index) {
-                    searchterm.second -= 1;
-                } else if (searchterm.second == index) {
-                    ind2.push_back(searchterm.first);
-                }
-            }
-
-            for (auto& ind : ind1) {
-                auto fnd1 = lookup1.find(ind);
-                if (fnd1 != lookup1.end()) {
-                    lookup1.erase(fnd1);
-                }
-            }
-
-            for (auto& ind : ind2) {
-                auto fnd2 = lookup2.find(ind);
-                if (fnd2 != lookup2.end()) {
-                    lookup2.erase(fnd2);
-                }
-            }
+            detail::eraseIndex(lookup1, index, erased);
+            detail::eraseIndex(lookup2, index, erased);
         }
 
         void remove(const searchType1& search)
diff --git a/gmlc/containers/DualStringMappedVector.hpp b/gmlc/containers/DualStringMappedVector.hpp
index 1664a3d..d1e41e1 100644
--- a/gmlc/containers/DualStringMappedVector.hpp
+++ b/gmlc/containers/DualStringMappedVector.hpp
@@ -310,37 +310,8 @@ or by numerical index
                 return;
             }
             auto erased = localErase(dataStorage, index);
-
-            StableBlockVector<std::string_view, BLOCK_ORDER> ind1;
-            for (auto& searchterm : lookup1) {
-                if (erased && searchterm.second > index) {
-                    searchterm.second -= 1;
-                } else if (searchterm.second == index) {
-                    ind1.push_back(searchterm.first);
-                }
-            }
-            StableBlockVector<searchType2, BLOCK_ORDER> ind2;
-            for (auto& searchterm : lookup2) {
-                if (erased && searchterm.second > index) {
-                    searchterm.second -= 1;
-                } else if (searchterm.second == index) {
-                    ind2.push_back(searchterm.first);
-                }
-            }
-
-            for (auto& ind : ind1) {
-                auto fnd1 = lookup1.find(ind);
-                if (fnd1 != lookup1.end()) {
-                    lookup1.erase(fnd1);
-                }
-            }
-
-            for (auto& ind : ind2) {
-                auto fnd2 = lookup2.find(ind);
-                if (fnd2 != lookup2.end()) {
-                    lookup2.erase(fnd2);
-                }
-            }
+            detail::eraseIndex(lookup1, index, erased);
+            detail::eraseIndex(lookup2, index, erased);
         }
 
         void remove(std::string_view search)
diff --git a/gmlc/containers/MapTraits.hpp b/gmlc/containers/MapTraits.hpp
index 14c320a..722032a 100644
--- a/gmlc/containers/MapTraits.hpp
+++ b/gmlc/containers/MapTraits.hpp
@@ -8,6 +8,7 @@ SPDX-License-Identifier: BSD-3-Clause
 */
 
 #pragma once
+#include <cstddef>
 #include <string>
 #include <type_traits>
 
@@ -39,3 +40,28 @@ struct is_easily_hashable<std::wstring> {
 using no_search_type = std::false_type;
 
 constexpr no_search_type no_search = no_search_type{};
+
+namespace gmlc {
+namespace containers {
+    namespace detail {
+        /** erase all the entries of a lookup map which refer to an index
+    @param lookup the map from a search term to an index
+    @param index the index that is being removed
+    @param shift true if the elements after index move down by one*/
+        template<class MapType>
+        void eraseIndex(MapType& lookup, std::size_t index, bool shift)
+        {
+            for (auto el = lookup.begin(); el != lookup.end();) {
+                if (el->second == index) {
+                    el = lookup.erase(el);
+                    continue;
+                }
+                if (shift && el->second > index) {
+                    el->second -= 1;
+                }
+                ++el;
+            }
+        }
+    }  // namespace detail
+}  // namespace containers
+}  // namespace gmlc
diff --git a/gmlc/containers/MappedPointerVector.hpp b/gmlc/containers/MappedPointerVector.hpp
index d2ee9fc..d84cb0f 100644
--- a/gmlc/containers/MappedPointerVector.hpp
+++ b/gmlc/containers/MappedPointerVector.hpp
@@ -137,18 +137,7 @@ class MappedPointerVector {
             return;
         }
         dataStorage.erase(dataStorage.begin() + index);
-        searchType ind;
-        for (auto& el2 : lookup) {
-            if (el2.second > index) {
-                el2.second -= 1;
-            } else if (el2.second == index) {
-                ind = el2.first;
-            }
-        }
-        auto fnd = lookup.find(ind);
-        if (fnd != lookup.end()) {
-            lookup.erase(fnd);
-        }
+        detail::eraseIndex(lookup, index, true);
     }
     /** remove an element based on the lookup index*/
     void remove(const searchType& search)
@@ -157,14 +146,7 @@ class MappedPointerVector {
         if (el == lookup.end()) {
             return;
         }
-        auto index = el->second;
-        dataStorage.erase(dataStorage.begin() + index);
-        for (auto& el2 : lookup) {
-            if (el2.second > index) {
-                el2.second -= 1;
-            }
-        }
-        lookup.erase(el);
+        removeIndex(el->second);
     }
 
     /** apply a function to all the values
diff --git a/gmlc/containers/MappedVector.hpp b/gmlc/containers/MappedVector.hpp
index 0266b70..ab7be96 100644
--- a/gmlc/containers/MappedVector.hpp
+++ b/gmlc/containers/MappedVector.hpp
@@ -135,18 +135,7 @@ limited to no removal since removal is a rather expensive operation
                 return;
             }
             auto erased = localErase(dataStorage, index);
-            searchType ind;
-            for (auto& el2 : lookup) {
-                if (erased && el2.second > index) {
-                    el2.second -= 1;
-                } else if (el2.second == index) {
-                    ind = el2.first;
-                }
-            }
-            auto fnd = lookup.find(ind);
-            if (fnd != lookup.end()) {
-                lookup.erase(fnd);
-            }
+            detail::eraseIndex(lookup, index, erased);
         }
 
         void remove(const searchType& search)
@@ -155,15 +144,7 @@ limited to no removal since removal is a rather expensive operation
             if (el == lookup.end()) {
                 return;
             }
-            auto index = el->second;
-            if (localErase(dataStorage, index)) {
-                for (auto& el2 : lookup) {
-                    if (el2.second > index) {
-                        el2.second -= 1;
-                    }
-                }
-            }
-            lookup.erase(el);
+            removeIndex(el->second);
         }
 
         /** apply a function to all the values
diff --git a/gmlc/containers/StringMappedVector.hpp b/gmlc/containers/StringMappedVector.hpp
index 2fce174..450ce80 100644
--- a/gmlc/containers/StringMappedVector.hpp
+++ b/gmlc/containers/StringMappedVector.hpp
@@ -124,18 +124,7 @@ with limited to no removal since removal is a rather expensive operation
                 return;
             }
             auto erased = localErase(dataStorage, index);
-            std::string_view ind;
-            for (auto& el2 : lookup) {
-                if (erased && el2.second > index) {
-                    el2.second -= 1;
-                } else if (el2.second == index) {
-                    ind = el2.first;
-                }
-            }
-            auto fnd = lookup.find(ind);
-            if (fnd != lookup.end()) {
-                lookup.erase(fnd);
-            }
+            detail::eraseIndex(lookup, index, erased);
         }
 
         void remove(std::string_view search)
@@ -144,15 +133,7 @@ with limited to no removal since removal is a rather expensive operation
             if (el == lookup.end()) {
                 return;
             }
-            auto index = el->second;
-            if (localErase(dataStorage, index)) {
-                for (auto& el2 : lookup) {
-                    if (el2.second > index) {
-                        el2.second -= 1;
-                    }
-                }
-            }
-            lookup.erase(el);
+            removeIndex(el->second);
         }
 
         /** apply a function to all the values
-- 
2.43.0


From de41deb0e23ed8b0dd83bdb3963f459c49e2752d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:21 +0000
Subject: [PATCH 30/47] fix: a failed insertion into a mapped container changes
 nothing

---
 gmlc/containers/DualMappedPointerVector.hpp | 22 +++++++++++++++--
 gmlc/containers/DualMappedVector.hpp        | 18 ++++++++++++--
 gmlc/containers/DualStringMappedVector.hpp  | 12 +++++++++
 gmlc/containers/MapTraits.hpp               | 27 +++++++++++++++++++++
 gmlc/containers/MappedPointerVector.hpp     |  8 ++++++
 gmlc/containers/MappedVector.hpp            |  4 +++
 gmlc/containers/StringMappedVector.hpp      |  4 +++
 7 files changed, 91 insertions(+), 4 deletions(-)

diff --git a/gmlc/containers/DualMappedPointerVector.hpp b/gmlc/containers/DualMappedPointerVector.hpp
index 7e614c4..975ef21 100644
--- a/gmlc/containers/DualMappedPointerVector.hpp
+++ b/gmlc/containers/DualMappedPointerVector.hpp
@@ -58,8 +58,10 @@ namespace containers {
             }
             auto index = dataStorage.size();
             dataStorage.emplace_back(std::move(ptr));
+            detail::InsertionGuard guard(dataStorage, lookup1);
             lookup1.emplace(searchValue1, index);
             lookup2.emplace(searchValue2, index);
+            guard.release();
             return index;
         }
         /** insert a new element into the vector*/
@@ -79,8 +81,10 @@ namespace containers {
             auto index = dataStorage.size();
             dataStorage.emplace_back(
                 std::make_unique<VType>(std::forward<Us>(data)...));
+            detail::InsertionGuard guard(dataStorage, lookup1);
             lookup1.emplace(searchValue1, index);
             lookup2.emplace(searchValue2, index);
+            guard.release();
             return index;
         }
 
@@ -98,7 +102,9 @@ namespace containers {
             auto index = dataStorage.size();
             dataStorage.emplace_back(
                 std::make_unique<VType>(std::forward<Us>(data)...));
+            detail::InsertionGuard guard(dataStorage, lookup1);
             lookup1.emplace(searchValue1, index);
+            guard.release();
             return index;
         }
 
@@ -116,7 +122,9 @@ namespace containers {
             auto index = dataStorage.size();
             dataStorage.emplace_back(
                 std::make_unique<VType>(std::forward<Us>(data)...));
+            detail::InsertionGuard guard(dataStorage, lookup2);
             lookup2.emplace(searchValue2, index);
+            guard.release();
             return index;
         }
 
@@ -139,8 +147,11 @@ namespace containers {
             }
             auto index = dataStorage.size();
             dataStorage.emplace_back(std::move(ptr));
-            lookup1[searchValue1] = index;
+            detail::InsertionGuard guard(dataStorage, lookup1);
+            auto added = lookup1.emplace(searchValue1, index);
             lookup2[searchValue2] = index;
+            added.first->second = index;
+            guard.release();
             return index;
         }
         /** insert a new element into the vector*/
@@ -164,8 +175,11 @@ namespace containers {
             auto index = dataStorage.size();
             dataStorage.emplace_back(
                 std::make_unique<VType>(std::forward<Us>(data)...));
-            lookup1[searchValue1] = index;
+            detail::InsertionGuard guard(dataStorage, lookup1);
+            auto added = lookup1.emplace(searchValue1, index);
             lookup2[searchValue2] = index;
+            added.first->second = index;
+            guard.release();
             return index;
         }
 
@@ -185,7 +199,9 @@ namespace containers {
             auto index = dataStorage.size();
             dataStorage.emplace_back(
                 std::make_unique<VType>(std::forward<Us>(data)...));
+            detail::InsertionGuard guard(dataStorage, lookup1);
             lookup1.emplace(searchValue1, index);
+            guard.release();
             return index;
         }
 
@@ -205,7 +221,9 @@ namespace containers {
             auto index = dataStorage.size();
             dataStorage.emplace_back(
                 std::make_unique<VType>(std::forward<Us>(data)...));
+            detail::InsertionGuard guard(dataStorage, lookup2);
             lookup2.emplace(searchValue2, index);
+            guard.release();
             return index;
         }
 
diff --git a/gmlc/containers/DualMappedVector.hpp b/gmlc/containers/DualMappedVector.hpp
index 381fce7..9ff91f9 100644
--- a/gmlc/containers/DualMappedVector.hpp
+++ b/gmlc/containers/DualMappedVector.hpp
@@ -60,8 +60,11 @@ or by numerical index
             }
             auto index = dataStorage.size();
             dataStorage.emplace_back(std::forward<Us>(data)...);
-            lookup1[searchValue1] = index;
+            detail::InsertionGuard guard(dataStorage, lookup1);
+            auto added = lookup1.emplace(searchValue1, index);
             lookup2[searchValue2] = index;
+            added.first->second = index;
+            guard.release();
             return index;
         }
 
@@ -83,7 +86,9 @@ or by numerical index
             }
             auto index = dataStorage.size();
             dataStorage.emplace_back(std::forward<Us>(data)...);
+            detail::InsertionGuard guard(dataStorage, lookup1);
             lookup1.emplace(searchValue1, index);
+            guard.release();
             return index;
         }
 
@@ -105,7 +110,9 @@ or by numerical index
             }
             auto index = dataStorage.size();
             dataStorage.emplace_back(std::forward<Us>(data)...);
+            detail::InsertionGuard guard(dataStorage, lookup2);
             lookup2.emplace(searchValue2, index);
+            guard.release();
             return index;
         }
 
@@ -143,8 +150,11 @@ or by numerical index
             }
             auto index = dataStorage.size();
             dataStorage.emplace_back(std::forward<Us>(data)...);
-            lookup1[searchValue1] = index;
+            detail::InsertionGuard guard(dataStorage, lookup1);
+            auto added = lookup1.emplace(searchValue1, index);
             lookup2[searchValue2] = index;
+            added.first->second = index;
+            guard.release();
             return index;
         }
 
@@ -165,7 +175,9 @@ or by numerical index
             }
             auto index = dataStorage.size();
             dataStorage.emplace_back(std::forward<Us>(data)...);
+            detail::InsertionGuard guard(dataStorage, lookup1);
             lookup1.emplace(searchValue1, index);
+            guard.release();
             return index;
         }
 
@@ -186,7 +198,9 @@ or by numerical index
             }
             auto index = dataStorage.size();
             dataStorage.emplace_back(std::forward<Us>(data)...);
+            detail::InsertionGuard guard(dataStorage, lookup2);
             lookup2.emplace(searchValue2, index);
+            guard.release();
             return index;
         }
         /** add an additional index term for searching
diff --git a/gmlc/containers/DualStringMappedVector.hpp b/gmlc/containers/DualStringMappedVector.hpp
index d1e41e1..b8cc474 100644
--- a/gmlc/containers/DualStringMappedVector.hpp
+++ b/gmlc/containers/DualStringMappedVector.hpp
@@ -60,9 +60,11 @@ or by numerical index
             }
             auto index = dataStorage.size();
             dataStorage.emplace_back(std::forward<Us>(data)...);
+            detail::InsertionGuard guard(dataStorage, lookup1);
             names.emplace_back(searchValue1);
             lookup1.emplace(names.back(), index);
             lookup2[searchValue2] = index;
+            guard.release();
             return index;
         }
 
@@ -84,8 +86,10 @@ or by numerical index
             }
             auto index = dataStorage.size();
             dataStorage.emplace_back(std::forward<Us>(data)...);
+            detail::InsertionGuard guard(dataStorage, lookup1);
             names.emplace_back(searchValue1);
             lookup1.emplace(names.back(), index);
+            guard.release();
             return index;
         }
 
@@ -107,7 +111,9 @@ or by numerical index
             }
             auto index = dataStorage.size();
             dataStorage.emplace_back(std::forward<Us>(data)...);
+            detail::InsertionGuard guard(dataStorage, lookup2);
             lookup2.emplace(searchValue2, index);
+            guard.release();
             return index;
         }
 
@@ -145,9 +151,11 @@ or by numerical index
             }
             auto index = dataStorage.size();
             dataStorage.emplace_back(std::forward<Us>(data)...);
+            detail::InsertionGuard guard(dataStorage, lookup1);
             names.emplace_back(searchValue1);
             lookup1.emplace(names.back(), index);
             lookup2[searchValue2] = index;
+            guard.release();
             return index;
         }
 
@@ -168,8 +176,10 @@ or by numerical index
             }
             auto index = dataStorage.size();
             dataStorage.emplace_back(std::forward<Us>(data)...);
+            detail::InsertionGuard guard(dataStorage, lookup1);
             names.emplace_back(searchValue1);
             lookup1.emplace(names.back(), index);
+            guard.release();
             return index;
         }
 
@@ -190,7 +200,9 @@ or by numerical index
             }
             auto index = dataStorage.size();
             dataStorage.emplace_back(std::forward<Us>(data)...);
+            detail::InsertionGuard guard(dataStorage, lookup2);
             lookup2.emplace(searchValue2, index);
+            guard.release();
             return index;
         }
         /** add an additional index term for searching
diff --git a/gmlc/containers/MapTraits.hpp b/gmlc/containers/MapTraits.hpp
index 722032a..62e0471 100644
--- a/gmlc/containers/MapTraits.hpp
+++ b/gmlc/containers/MapTraits.hpp
@@ -62,6 +62,33 @@ namespace containers {
                 ++el;
             }
         }
+
+        /** guard for an element added at the end of a container, the element
+    and its entries in a lookup map are removed unless the guard is released*/
+        template<class Storage, class MapType>
+        class InsertionGuard {
+          public:
+            InsertionGuard(Storage& storage, MapType& map):
+                data(storage), lookup(map)
+            {
+            }
+            InsertionGuard(const InsertionGuard&) = delete;
+            InsertionGuard& operator=(const InsertionGuard&) = delete;
+            ~InsertionGuard()
+            {
+                if (active) {
+                    data.pop_back();
+                    eraseIndex(lookup, data.size(), false);
+                }
+            }
+            /** the insertion is complete*/
+            void release() { active = false; }
+
+          private:
+            Storage& data;
+            MapType& lookup;
+            bool active{true};
+        };
     }  // namespace detail
 }  // namespace containers
 }  // namespace gmlc
diff --git a/gmlc/containers/MappedPointerVector.hpp b/gmlc/containers/MappedPointerVector.hpp
index d84cb0f..0218870 100644
--- a/gmlc/containers/MappedPointerVector.hpp
+++ b/gmlc/containers/MappedPointerVector.hpp
@@ -39,7 +39,9 @@ class MappedPointerVector {
         }
         auto index = dataStorage.size();
         dataStorage.emplace_back(std::move(ptr));
+        detail::InsertionGuard guard(dataStorage, lookup);
         lookup.emplace(searchValue, index);
+        guard.release();
         return index;
     }
     /** insert a new element into the vector*/
@@ -53,7 +55,9 @@ class MappedPointerVector {
         auto index = dataStorage.size();
         dataStorage.emplace_back(
             std::make_unique<VType>(std::forward<Us>(data)...));
+        detail::InsertionGuard guard(dataStorage, lookup);
         lookup.emplace(searchValue, index);
+        guard.release();
         return index;
     }
 
@@ -78,7 +82,9 @@ class MappedPointerVector {
         }
         auto index = dataStorage.size();
         dataStorage.emplace_back(std::move(ptr));
+        detail::InsertionGuard guard(dataStorage, lookup);
         lookup.emplace(searchValue, index);
+        guard.release();
         return index;
     }
     /** insert a new element into the vector*/
@@ -94,7 +100,9 @@ class MappedPointerVector {
         auto index = dataStorage.size();
         dataStorage.emplace_back(
             std::make_unique<VType>(std::forward<Us>(data)...));
+        detail::InsertionGuard guard(dataStorage, lookup);
         lookup.emplace(searchValue, index);
+        guard.release();
         return index;
     }
 
diff --git a/gmlc/containers/MappedVector.hpp b/gmlc/containers/MappedVector.hpp
index ab7be96..995c1c0 100644
--- a/gmlc/containers/MappedVector.hpp
+++ b/gmlc/containers/MappedVector.hpp
@@ -47,7 +47,9 @@ limited to no removal since removal is a rather expensive operation
             }
             auto index = dataStorage.size();
             dataStorage.emplace_back(std::forward<Us>(data)...);
+            detail::InsertionGuard guard(dataStorage, lookup);
             lookup.emplace(searchValue, index);
+            guard.release();
             return index;
         }
         /** insert an element into the mapped vector
@@ -79,7 +81,9 @@ limited to no removal since removal is a rather expensive operation
             }
             auto index = dataStorage.size();
             dataStorage.emplace_back(std::forward<Us>(data)...);
+            detail::InsertionGuard guard(dataStorage, lookup);
             lookup.emplace(searchValue, index);
+            guard.release();
             return index;
         }
 
diff --git a/gmlc/containers/StringMappedVector.hpp b/gmlc/containers/StringMappedVector.hpp
index 450ce80..1577e4c 100644
--- a/gmlc/containers/StringMappedVector.hpp
+++ b/gmlc/containers/StringMappedVector.hpp
@@ -45,8 +45,10 @@ with limited to no removal since removal is a rather expensive operation
             }
             auto index = dataStorage.size();
             dataStorage.emplace_back(std::forward<Us>(data)...);
+            detail::InsertionGuard guard(dataStorage, lookup);
             names.emplace_back(searchValue);
             lookup.emplace(names.back(), index);
+            guard.release();
             return index;
         }
         /** insert an element into the mapped vector
@@ -78,8 +80,10 @@ with limited to no removal since removal is a rather expensive operation
             }
             auto index = dataStorage.size();
             dataStorage.emplace_back(std::forward<Us>(data)...);
+            detail::InsertionGuard guard(dataStorage, lookup);
             names.emplace_back(searchValue);
             lookup.emplace(names.back(), index);
+            guard.release();
             return index;
         }
 
-- 
2.43.0


From 4eca274a94ac4525d08ee1e08f29e2da5784a2be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:21 +0000
Subject: [PATCH 31/47] fix: copies of string mapped vectors own their search
 strings

---
 gmlc/containers/DualStringMappedVector.hpp | 20 ++++++++++++++++++++
 gmlc/containers/StringMappedVector.hpp     | 20 ++++++++++++++++++++
 2 files changed, 40 insertions(+)

diff --git a/gmlc/containers/DualStringMappedVector.hpp b/gmlc/containers/DualStringMappedVector.hpp
index b8cc474..05322ef 100644
--- a/gmlc/containers/DualStringMappedVector.hpp
+++ b/gmlc/containers/DualStringMappedVector.hpp
@@ -38,6 +38,26 @@ or by numerical index
             !std::is_same<std::string, searchType2>::value,
             "searchType1 and searchType2 cannot be the same type");
 
+        DualStringMappedVector() = default;
+        DualStringMappedVector(DualStringMappedVector&& other) = default;
+        DualStringMappedVector& operator=(DualStringMappedVector&& other) = default;
+        /** the search values refer to the strings in names so a copy needs its
+         * own*/
+        DualStringMappedVector(const DualStringMappedVector& other):
+            dataStorage(other.dataStorage), lookup2(other.lookup2)
+        {
+            for (auto& el : other.lookup1) {
+                names.emplace_back(el.first);
+                lookup1.emplace(names.back(), el.second);
+            }
+        }
+        DualStringMappedVector& operator=(const DualStringMappedVector& other)
+        {
+            DualStringMappedVector copy(other);
+            *this = std::move(copy);
+            return *this;
+        }
+
         /** insert a new element into the vector
     @param searchValue1 the primary unique index of the vector
     @param searchValue2 the secondary unique index of the vector
diff --git a/gmlc/containers/StringMappedVector.hpp b/gmlc/containers/StringMappedVector.hpp
index 1577e4c..403a9de 100644
--- a/gmlc/containers/StringMappedVector.hpp
+++ b/gmlc/containers/StringMappedVector.hpp
@@ -30,6 +30,26 @@ with limited to no removal since removal is a rather expensive operation
         int BLOCK_ORDER = 5>
     class StringMappedVector {
       public:
+        StringMappedVector() = default;
+        StringMappedVector(StringMappedVector&& other) = default;
+        StringMappedVector& operator=(StringMappedVector&& other) = default;
+        /** the search values refer to the strings in names so a copy needs its
+         * own*/
+        StringMappedVector(const StringMappedVector& other):
+            dataStorage(other.dataStorage)
+        {
+            for (auto& el : other.lookup) {
+                names.emplace_back(el.first);
+                lookup.emplace(names.back(), el.second);
+            }
+        }
+        StringMappedVector& operator=(const StringMappedVector& other)
+        {
+            StringMappedVector copy(other);
+            *this = std::move(copy);
+            return *this;
+        }
+
         /** insert an element into the mapped vector
     @param searchValue the unique name to use for the value if it exists the
     existing value is replaced
-- 
2.43.0


From 85cf79e5773a700644a4348b0867624673f751d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:21 +0000
Subject: [PATCH 32/47] fix: a failed copy assignment of a mapped vector
 changes nothing

---
 gmlc/containers/DualMappedVector.hpp | 13 +++++++++++++
 gmlc/containers/MappedVector.hpp     | 13 +++++++++++++
 2 files changed, 26 insertions(+)

diff --git a/gmlc/containers/DualMappedVector.hpp b/gmlc/containers/DualMappedVector.hpp
index 9ff91f9..0afe7dd 100644
--- a/gmlc/containers/DualMappedVector.hpp
+++ b/gmlc/containers/DualMappedVector.hpp
@@ -38,6 +38,19 @@ or by numerical index
             !std::is_same<searchType1, searchType2>::value,
             "searchType1 and searchType2 cannot be the same type");
 
+        DualMappedVector() = default;
+        DualMappedVector(const DualMappedVector& other) = default;
+        DualMappedVector(DualMappedVector&& other) = default;
+        DualMappedVector& operator=(DualMappedVector&& other) = default;
+        /** copy everything before changing anything so a failure leaves the
+         * elements and the search values consistent*/
+        DualMappedVector& operator=(const DualMappedVector& other)
+        {
+            DualMappedVector copy(other);
+            *this = std::move(copy);
+            return *this;
+        }
+
         /** insert a new element into the vector
     @param searchValue1 the primary unique index of the vector
     @param searchValue2 the secondary unique index of the vector
diff --git a/gmlc/containers/MappedVector.hpp b/gmlc/containers/MappedVector.hpp
index 995c1c0..c21470e 100644
--- a/gmlc/containers/MappedVector.hpp
+++ b/gmlc/containers/MappedVector.hpp
@@ -31,6 +31,19 @@ limited to no removal since removal is a rather expensive operation
         int BLOCK_ORDER = 5>
     class MappedVector {
       public:
+        MappedVector() = default;
+        MappedVector(const MappedVector& other) = default;
+        MappedVector(MappedVector&& other) = default;
+        MappedVector& operator=(MappedVector&& other) = default;
+        /** copy everything before changing anything so a failure leaves the
+         * elements and the search values consistent*/
+        MappedVector& operator=(const MappedVector& other)
+        {
+            MappedVector copy(other);
+            *this = std::move(copy);
+            return *this;
+        }
+
         /** insert an element into the mapped vector
     @param searchValue the unique index to use for the value if it exists the
     existing value is replaced
-- 
2.43.0


From 29031dfbc018c5d14635916d1af4c3c49bd7d38a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:20 +0000
Subject: [PATCH 33/47] fix: closing a work queue does not wait for work
 submitted meanwhile

---
 gmlc/containers/WorkQueue.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gmlc/containers/WorkQueue.hpp b/gmlc/containers/WorkQueue.hpp
index 42aab2f..e545000 100644
--- a/gmlc/containers/WorkQueue.hpp
+++ b/gmlc/containers/WorkQueue.hpp
@@ -527,9 +527,9 @@ value)
                         queueCondition.wait_for(
                             lv, std::chrono::milliseconds(5000));
                     }
-                    if (halt) {
-                        return;
-                    }
+                }
+                if (halt) {  // also when more work keeps coming in
+                    return;
                 }
                 auto wb =
                     getWorkBlock();  // this will return empty if it is spurious
-- 
2.43.0


From fcf319d3a8b6a49d1efa22234f9117bd59f08d53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:29 +0000
Subject: [PATCH 34/47] fix: a work block without work can be constructed

---
 gmlc/containers/WorkQueue.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gmlc/containers/WorkQueue.hpp b/gmlc/containers/WorkQueue.hpp
index e545000..ddbde91 100644
--- a/gmlc/containers/WorkQueue.hpp
+++ b/gmlc/containers/WorkQueue.hpp
@@ -98,7 +98,7 @@ that can be executed, functionoid, or something that implements operator()
     template<typename retType>
     class WorkBlock : public BasicWorkBlock {
       public:
-        WorkBlock() { reset(); }
+        WorkBlock() = default;
         // copy constructor intentionally omitted*/
         /** move constructor*/
         WorkBlock(WorkBlock&& wb) = default;
@@ -184,7 +184,7 @@ that can be executed
     template<>
     class WorkBlock<void> : public BasicWorkBlock {
       public:
-        WorkBlock() { reset(); }
+        WorkBlock() = default;
         WorkBlock(std::packaged_task<void()>&& newTask) :
             task(std::move(newTask)), loaded(true)
         {
-- 
2.43.0


From 5ba9d75becc473d2beb1a58899dd622c7aaff5a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:29 +0000
Subject: [PATCH 35/47] fix: finished work blocks in a vector are not executed
 again

---
 gmlc/containers/WorkQueue.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gmlc/containers/WorkQueue.hpp b/gmlc/containers/WorkQueue.hpp
index ddbde91..b139a2c 100644
--- a/gmlc/containers/WorkQueue.hpp
+++ b/gmlc/containers/WorkQueue.hpp
@@ -441,7 +441,9 @@ value)
                 queueCondition.notify_all();
             } else {
                 for (auto& wb : newWork) {
-                    if (wb) {
+                    if ((wb) &&
+                        (!wb->isFinished() ||
+                         priority == WorkPriority::required)) {
                         wb->execute();
                     }
                 }
-- 
2.43.0


From 592526332d14d782099f00ab5171defc828928c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:29 +0000
Subject: [PATCH 36/47] fix: a failed batch push lost elements already in the
 queue

---
 gmlc/containers/SimpleQueue.hpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/gmlc/containers/SimpleQueue.hpp b/gmlc/containers/SimpleQueue.hpp
index 9aba85d..dcddd97 100644
--- a/gmlc/containers/SimpleQueue.hpp
+++ b/gmlc/containers/SimpleQueue.hpp
@@ -13,6 +13,7 @@ SPDX-License-Identifier: BSD-3-Clause
 
 #include <algorithm>
 #include <atomic>
+#include <iterator>
 #include <mutex>
 #include <type_traits>
 #include <utility>
@@ -146,6 +147,8 @@ atomic flag indicating the queue is empty
             if (val.empty()) {
                 return;  // nothing to add, so nothing to flag as non-empty
             }
+            // copied before anything is changed: the moves below cannot fail
+            std::vector<X> elements(val);
             std::unique_lock<MUTEX> pushLock(
                 m_pushLock);  // only one lock on this branch
             if (pushElements.empty()) {
@@ -154,7 +157,9 @@ atomic flag indicating the queue is empty
                 std::unique_lock<MUTEX> pullLock(m_pullLock);  // first pullLock
                 if (pullElements.empty()) {
                     pullElements.insert(
-                        pullElements.end(), val.rbegin(), val.rend());
+                        pullElements.end(),
+                        std::make_move_iterator(elements.rbegin()),
+                        std::make_move_iterator(elements.rend()));
                     queueEmptyFlag.store(false);
                     return;
                 }
@@ -163,7 +168,10 @@ atomic flag indicating the queue is empty
                 pushLock.lock();
                 // LCOV_EXCL_STOP
             }
-            pushElements.insert(pushElements.end(), val.begin(), val.end());
+            pushElements.insert(
+                pushElements.end(),
+                std::make_move_iterator(elements.begin()),
+                std::make_move_iterator(elements.end()));
         }
 
         /** emplace an element onto the queue
-- 
2.43.0


From 2483e994a705e59b2cf1c8ce52715c89446ba075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:57:23 +0000
Subject: [PATCH 37/47] fix: store a copy of the pushed element, not a list
 holding it

X{val} calls a constructor from an initializer list when the element type has
one that fits, so pushing a std::vector<std::any> (or a json value) stored a
one element list with the value in it.
---
 gmlc/containers/StableBlockDeque.hpp  | 8 ++++----
 gmlc/containers/StableBlockVector.hpp | 4 ++--
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/gmlc/containers/StableBlockDeque.hpp b/gmlc/containers/StableBlockDeque.hpp
index 1318551..75c9931 100644
--- a/gmlc/containers/StableBlockDeque.hpp
+++ b/gmlc/containers/StableBlockDeque.hpp
@@ -128,14 +128,14 @@ and deallocate methods)*/
         void push_back(const X& val)
         {
             blockCheck();
-            new (&(dataptr[dataSlotBack][bsize])) X{val};
+            new (&(dataptr[dataSlotBack][bsize])) X(val);
             ++bsize;
             ++csize;
         }
         void push_back(X&& val)
         {
             blockCheck();
-            new (&(dataptr[dataSlotBack][bsize])) X{std::move(val)};
+            new (&(dataptr[dataSlotBack][bsize])) X(std::move(val));
             ++bsize;
             ++csize;
         }
@@ -168,14 +168,14 @@ and deallocate methods)*/
         void push_front(const X& val)
         {
             blockCheckFront();
-            new (&(dataptr[dataSlotFront][fsize])) X{val};
+            new (&(dataptr[dataSlotFront][fsize])) X(val);
             --fsize;
             ++csize;
         }
         void push_front(X&& val)
         {
             blockCheckFront();
-            new (&(dataptr[dataSlotFront][fsize])) X{std::move(val)};
+            new (&(dataptr[dataSlotFront][fsize])) X(std::move(val));
             --fsize;
             ++csize;
         }
diff --git a/gmlc/containers/StableBlockVector.hpp b/gmlc/containers/StableBlockVector.hpp
index 9f09a45..e4c71e5 100644
--- a/gmlc/containers/StableBlockVector.hpp
+++ b/gmlc/containers/StableBlockVector.hpp
@@ -125,14 +125,14 @@ no erase or insert
         void push_back(const X& val)
         {
             blockCheck();
-            new (&(dataptr[dataSlotIndex][bsize])) X{val};
+            new (&(dataptr[dataSlotIndex][bsize])) X(val);
             ++bsize;
             ++csize;
         }
         void push_back(X&& val)
         {
             blockCheck();
-            new (&(dataptr[dataSlotIndex][bsize])) X{std::move(val)};
+            new (&(dataptr[dataSlotIndex][bsize])) X(std::move(val));
             ++bsize;
             ++csize;
         }
-- 
2.43.0


From 83cb207abf59fd5a23ee91abc64c0808bf3792dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:22:02 +0000
Subject: [PATCH 38/47] fix: the deadline of a timed pop is exact for any kind
 of duration

Adding a duration of float to the present time rounds the whole deadline.
---
 gmlc/containers/BlockingPriorityQueue.hpp | 3 ++-
 gmlc/containers/BlockingQueue.hpp         | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/gmlc/containers/BlockingPriorityQueue.hpp b/gmlc/containers/BlockingPriorityQueue.hpp
index 29ff330..368dc88 100644
--- a/gmlc/containers/BlockingPriorityQueue.hpp
+++ b/gmlc/containers/BlockingPriorityQueue.hpp
@@ -287,7 +287,8 @@ the two locks will reduce contention in most cases.
         std::optional<T> pop(TIME timeout)
         {
             // a wake-up without an element must not restart the timeout
-            const auto deadline = std::chrono::steady_clock::now() + timeout;
+            const auto deadline = std::chrono::steady_clock::now() +
+                std::chrono::ceil<std::chrono::steady_clock::duration>(timeout);
             auto val = try_pop();
             while (!val) {
                 std::unique_lock<MUTEX> pullLock(
diff --git a/gmlc/containers/BlockingQueue.hpp b/gmlc/containers/BlockingQueue.hpp
index 39eb119..7b03b05 100644
--- a/gmlc/containers/BlockingQueue.hpp
+++ b/gmlc/containers/BlockingQueue.hpp
@@ -246,7 +246,8 @@ contention the two locks will reduce contention in most cases.
         std::optional<T> pop(TIME timeout)
         {
             // a wake-up without an element must not restart the timeout
-            const auto deadline = std::chrono::steady_clock::now() + timeout;
+            const auto deadline = std::chrono::steady_clock::now() +
+                std::chrono::ceil<std::chrono::steady_clock::duration>(timeout);
             auto val = try_pop();
             while (!val) {
                 std::unique_lock<MUTEX> pullLock(
-- 
2.43.0


From 4d5d75e0f1fd456f2b3f05053b539ba5c662d74b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:10:00 +0000
Subject: [PATCH 39/47] fix: a timed pop accepts timeouts beyond the range of
 the clock

A timeout such as seconds::max() overflowed when it was added to the
current time, and the pop gave up at once. Such a timeout never ends now,
and a negative one has ended already.
---
 gmlc/containers/BlockingPriorityQueue.hpp | 19 +++++++++++++++++--
 gmlc/containers/BlockingQueue.hpp         | 19 +++++++++++++++++--
 2 files changed, 34 insertions(+), 4 deletions(-)

diff --git a/gmlc/containers/BlockingPriorityQueue.hpp b/gmlc/containers/BlockingPriorityQueue.hpp
index 368dc88..36fef5d 100644
--- a/gmlc/containers/BlockingPriorityQueue.hpp
+++ b/gmlc/containers/BlockingPriorityQueue.hpp
@@ -287,8 +287,7 @@ the two locks will reduce contention in most cases.
         std::optional<T> pop(TIME timeout)
         {
             // a wake-up without an element must not restart the timeout
-            const auto deadline = std::chrono::steady_clock::now() +
-                std::chrono::ceil<std::chrono::steady_clock::duration>(timeout);
+            const auto deadline = expiry(timeout);
             auto val = try_pop();
             while (!val) {
                 std::unique_lock<MUTEX> pullLock(
@@ -390,6 +389,22 @@ any meaning depending on the number of consumers
         bool empty() const;
 
       private:
+        /** get the time at which a timeout starting now ends, one that is
+    beyond the range of the clock never does*/
+        template<typename TIME>
+        static std::chrono::steady_clock::time_point expiry(TIME timeout)
+        {
+            using clock = std::chrono::steady_clock;
+            using seconds = std::chrono::duration<long double>;
+            const auto now = clock::now();
+            if (timeout <= TIME::zero()) {
+                return now;
+            }
+            if (seconds(timeout) >= seconds(clock::time_point::max() - now)) {
+                return clock::time_point::max();
+            }
+            return now + std::chrono::ceil<clock::duration>(timeout);
+        }
         /** If pullElements is empty check push and swap and reverse if needed
   assumes pullLock is active and pushLock is not
   */
diff --git a/gmlc/containers/BlockingQueue.hpp b/gmlc/containers/BlockingQueue.hpp
index 7b03b05..1372d7d 100644
--- a/gmlc/containers/BlockingQueue.hpp
+++ b/gmlc/containers/BlockingQueue.hpp
@@ -246,8 +246,7 @@ contention the two locks will reduce contention in most cases.
         std::optional<T> pop(TIME timeout)
         {
             // a wake-up without an element must not restart the timeout
-            const auto deadline = std::chrono::steady_clock::now() +
-                std::chrono::ceil<std::chrono::steady_clock::duration>(timeout);
+            const auto deadline = expiry(timeout);
             auto val = try_pop();
             while (!val) {
                 std::unique_lock<MUTEX> pullLock(
@@ -327,6 +326,22 @@ any meaning depending on the number of consumers
         size_t size() const;
 
       private:
+        /** get the time at which a timeout starting now ends, one that is
+    beyond the range of the clock never does*/
+        template<typename TIME>
+        static std::chrono::steady_clock::time_point expiry(TIME timeout)
+        {
+            using clock = std::chrono::steady_clock;
+            using seconds = std::chrono::duration<long double>;
+            const auto now = clock::now();
+            if (timeout <= TIME::zero()) {
+                return now;
+            }
+            if (seconds(timeout) >= seconds(clock::time_point::max() - now)) {
+                return clock::time_point::max();
+            }
+            return now + std::chrono::ceil<clock::duration>(timeout);
+        }
         /** If pullElements is empty check push and swap and reverse if needed
     assumes pullLock is active and pushLock is not
     */
-- 
2.43.0


From 3af2d3aecb4bceea201e5e63c4f4e88ea2ae12b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:10:00 +0000
Subject: [PATCH 40/47] fix: resizing a circular buffer to a negative size is
 refused

It used to set a negative capacity, and the next resize copied that many
bytes taken as an unsigned number.
---
 gmlc/containers/CircularBuffer.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gmlc/containers/CircularBuffer.hpp b/gmlc/containers/CircularBuffer.hpp
index 7e1272d..056ab41 100644
--- a/gmlc/containers/CircularBuffer.hpp
+++ b/gmlc/containers/CircularBuffer.hpp
@@ -237,6 +237,10 @@ namespace containers {
 
         void resize(int newsize)
         {
+            if (newsize < 0) {
+                throw(std::runtime_error(
+                    "unable to resize, the new size is negative"));
+            }
             if (newsize == buffer.capacity_) {
                 return;
             }
-- 
2.43.0


From 6c9dca4098d27a619417d76e43e4621d246430f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:10:00 +0000
Subject: [PATCH 41/47] fix: elements can be removed from string mapped vectors
 with unstable references

The removal did not compile for them.
---
 gmlc/containers/DualStringMappedVector.hpp | 5 +++++
 gmlc/containers/StringMappedVector.hpp     | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/gmlc/containers/DualStringMappedVector.hpp b/gmlc/containers/DualStringMappedVector.hpp
index 05322ef..e0e9ee1 100644
--- a/gmlc/containers/DualStringMappedVector.hpp
+++ b/gmlc/containers/DualStringMappedVector.hpp
@@ -415,6 +415,11 @@ or by numerical index
         }
 
       private:
+        bool localErase(std::vector<VType>& vect, size_t index)
+        {
+            vect.erase(vect.begin() + index);
+            return true;
+        }
         bool localErase(
             StableBlockVector<VType, BLOCK_ORDER>& vect,
             size_t index)
diff --git a/gmlc/containers/StringMappedVector.hpp b/gmlc/containers/StringMappedVector.hpp
index 403a9de..2dad8ad 100644
--- a/gmlc/containers/StringMappedVector.hpp
+++ b/gmlc/containers/StringMappedVector.hpp
@@ -206,6 +206,11 @@ with limited to no removal since removal is a rather expensive operation
         }
 
       private:
+        bool localErase(std::vector<VType>& vect, size_t index)
+        {
+            vect.erase(vect.begin() + index);
+            return true;
+        }
         bool localErase(
             StableBlockVector<VType, BLOCK_ORDER>& vect,
             size_t index)
-- 
2.43.0


From f07a680abcb4446add4ac0d733769f1ee0812350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:10:00 +0000
Subject: [PATCH 42/47] fix: DualMappedPointerVector::at compiles

---
 gmlc/containers/DualMappedPointerVector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gmlc/containers/DualMappedPointerVector.hpp b/gmlc/containers/DualMappedPointerVector.hpp
index 975ef21..b86e895 100644
--- a/gmlc/containers/DualMappedPointerVector.hpp
+++ b/gmlc/containers/DualMappedPointerVector.hpp
@@ -257,7 +257,7 @@ namespace containers {
                                                   nullptr;
         }
 
-        VType* at(size_t index) const { return dataStorage.at(index); }
+        VType* at(size_t index) const { return dataStorage.at(index).get(); }
 
         /** get a pointer to the last element inserted*/
         VType* back() { return dataStorage.back().get(); }
-- 
2.43.0


From 9f24dc22e3ebcd35c3970b2cabc153c8378c3421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:29:16 +0000
Subject: [PATCH 43/47] fix: popping a blocking queue of bool takes the value,
 not a reference

The vectors of bool hand out proxies, and the proxy was read after its
element had been removed, when a producer may have reused its place.
---
 gmlc/containers/BlockingPriorityQueue.hpp | 8 ++++----
 gmlc/containers/BlockingQueue.hpp         | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/gmlc/containers/BlockingPriorityQueue.hpp b/gmlc/containers/BlockingPriorityQueue.hpp
index 36fef5d..3ff8bbc 100644
--- a/gmlc/containers/BlockingPriorityQueue.hpp
+++ b/gmlc/containers/BlockingPriorityQueue.hpp
@@ -349,7 +349,7 @@ the two locks will reduce contention in most cases.
                 callOnWaitFunction();
                 std::unique_lock<MUTEX> pullLock(m_pullLock);  // first pullLock
                 if (!priorityQueue.empty()) {
-                    auto actval = std::move(priorityQueue.front());
+                    T actval = std::move(priorityQueue.front());
                     priorityQueue.pop();
                     checkPullAndSwap();
                     return actval;
@@ -357,7 +357,7 @@ the two locks will reduce contention in most cases.
                 if (!pullElements.empty()) {
                     // the callback may fill the queue or it may have been
                     // filled in the meantime
-                    auto actval = std::move(pullElements.back());
+                    T actval = std::move(pullElements.back());
                     pullElements.pop_back();
                     checkPullAndSwap();
                     return actval;
@@ -365,13 +365,13 @@ the two locks will reduce contention in most cases.
                 condition.wait(pullLock);
                 // need to check again to handle spurious wake-up
                 if (!priorityQueue.empty()) {
-                    auto actval = std::move(priorityQueue.front());
+                    T actval = std::move(priorityQueue.front());
                     priorityQueue.pop();
                     checkPullAndSwap();
                     return actval;
                 }
                 if (!pullElements.empty()) {
-                    auto actval = std::move(pullElements.back());
+                    T actval = std::move(pullElements.back());
                     pullElements.pop_back();
                     checkPullAndSwap();
                     return actval;
diff --git a/gmlc/containers/BlockingQueue.hpp b/gmlc/containers/BlockingQueue.hpp
index 1372d7d..c6a3862 100644
--- a/gmlc/containers/BlockingQueue.hpp
+++ b/gmlc/containers/BlockingQueue.hpp
@@ -221,7 +221,7 @@ contention the two locks will reduce contention in most cases.
                     m_pullLock);  // get the lock then wait
                 if (!pullElements.empty())  // make sure we are actually empty;
                 {
-                    auto actval = std::move(pullElements.back());
+                    T actval = std::move(pullElements.back());
                     pullElements.pop_back();
                     checkPullAndSwap();
                     return actval;
@@ -229,7 +229,7 @@ contention the two locks will reduce contention in most cases.
                 condition.wait(pullLock);  // now wait
                 if (!pullElements.empty())  // check for spurious wake-ups
                 {
-                    auto actval = std::move(pullElements.back());
+                    T actval = std::move(pullElements.back());
                     pullElements.pop_back();
                     checkPullAndSwap();
                     return actval;
@@ -295,7 +295,7 @@ contention the two locks will reduce contention in most cases.
                 if (!pullElements.empty()) {
                     // the callback may fill the queue or it may have been
                     // filled in the meantime
-                    auto actval = std::move(pullElements.back());
+                    T actval = std::move(pullElements.back());
                     pullElements.pop_back();
                     checkPullAndSwap();
                     return actval;
@@ -303,7 +303,7 @@ contention the two locks will reduce contention in most cases.
                 condition.wait(pullLock);
                 // need to check again to handle spurious wake-up
                 if (!pullElements.empty()) {
-                    auto actval = std::move(pullElements.back());
+                    T actval = std::move(pullElements.back());
                     pullElements.pop_back();
                     checkPullAndSwap();
                     return actval;
-- 
2.43.0


From 98312a49afa62197640b9373b472cd9d714e3e68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:29:16 +0000
Subject: [PATCH 44/47] fix: a queue that was moved from is empty

Its flag still said that it holds elements, so empty() was wrong and the next
push put its element where peek does not look.
---
 gmlc/containers/BlockingPriorityQueue.hpp | 2 ++
 gmlc/containers/BlockingQueue.hpp         | 2 ++
 gmlc/containers/SimpleQueue.hpp           | 2 ++
 3 files changed, 6 insertions(+)

diff --git a/gmlc/containers/BlockingPriorityQueue.hpp b/gmlc/containers/BlockingPriorityQueue.hpp
index 3ff8bbc..102fdbc 100644
--- a/gmlc/containers/BlockingPriorityQueue.hpp
+++ b/gmlc/containers/BlockingPriorityQueue.hpp
@@ -79,6 +79,7 @@ the two locks will reduce contention in most cases.
             priorityQueue(std::move(bq.priorityQueue))
         {
             queueEmptyFlag = (pullElements.empty() && priorityQueue.empty());
+            bq.queueEmptyFlag = true;
         }
 
         /** enable the move assignment not the copy assignment*/
@@ -90,6 +91,7 @@ the two locks will reduce contention in most cases.
             pullElements = std::move(sq.pullElements);
             priorityQueue = std::move(sq.priorityQueue);
             queueEmptyFlag = (pullElements.empty() && priorityQueue.empty());
+            sq.queueEmptyFlag = true;
             // elements may have arrived for waiting consumers
             condition.notify_all();
             return *this;
diff --git a/gmlc/containers/BlockingQueue.hpp b/gmlc/containers/BlockingQueue.hpp
index c6a3862..34d0558 100644
--- a/gmlc/containers/BlockingQueue.hpp
+++ b/gmlc/containers/BlockingQueue.hpp
@@ -72,6 +72,7 @@ contention the two locks will reduce contention in most cases.
             pullElements(std::move(bq.pullElements))
         {
             queueEmptyFlag = pullElements.empty();
+            bq.queueEmptyFlag = true;
         }
 
         /** enable the move assignment not the copy assignment*/
@@ -82,6 +83,7 @@ contention the two locks will reduce contention in most cases.
             pushElements = std::move(sq.pushElements);
             pullElements = std::move(sq.pullElements);
             queueEmptyFlag = pullElements.empty();
+            sq.queueEmptyFlag = true;
             // elements may have arrived for waiting consumers
             condition.notify_all();
             return *this;
diff --git a/gmlc/containers/SimpleQueue.hpp b/gmlc/containers/SimpleQueue.hpp
index dcddd97..078fc28 100644
--- a/gmlc/containers/SimpleQueue.hpp
+++ b/gmlc/containers/SimpleQueue.hpp
@@ -65,6 +65,7 @@ atomic flag indicating the queue is empty
             pullElements(std::move(sq.pullElements))
         {
             queueEmptyFlag = pullElements.empty();
+            sq.queueEmptyFlag = true;
         }
 
         /** enable the move assignment not the copy assignment*/
@@ -75,6 +76,7 @@ atomic flag indicating the queue is empty
             pushElements = std::move(sq.pushElements);
             pullElements = std::move(sq.pullElements);
             queueEmptyFlag = pullElements.empty();
+            sq.queueEmptyFlag = true;
             return *this;
         }
         /** DISABLE_COPY_AND_ASSIGN */
-- 
2.43.0


From 9dd37fce059ec3922eca627b5e32af3a2d990537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:29:16 +0000
Subject: [PATCH 45/47] fix: a work block whose work cannot be replaced keeps
 its old work

When the new function could not be stored the block was left without work, so
it finished without executing anything and its result never arrived.
---
 gmlc/containers/WorkQueue.hpp | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/gmlc/containers/WorkQueue.hpp b/gmlc/containers/WorkQueue.hpp
index b139a2c..b0edf96 100644
--- a/gmlc/containers/WorkQueue.hpp
+++ b/gmlc/containers/WorkQueue.hpp
@@ -140,18 +140,19 @@ that can be executed, functionoid, or something that implements operator()
             static_assert(
                 std::is_same<decltype(newWork()), retType>::value,
                 "work does not match type");
-            loaded = false;
-            task = std::packaged_task<retType()>(std::forward<Func>(newWork));
-            reset();
-            loaded = true;
+            updateTask(
+                std::packaged_task<retType()>(std::forward<Func>(newWork)));
         }
         /** update the task with a new packaged_task
     @param[in] newTask the packaged task with the correct return type*/
         void updateTask(std::packaged_task<retType()>&& newTask)
         {
+            // a task that cannot be used leaves the block as it was
+            auto newFuture = newTask.get_future();
             loaded = false;
             task = std::move(newTask);
-            reset();
+            future_ret = std::move(newFuture);
+            progress.rearm();
             loaded = true;
         }
         /** check if the task is finished*/
@@ -220,16 +221,17 @@ that can be executed
             static_assert(
                 std::is_same<decltype(newWork()), void>::value,
                 "work does not match type");
-            loaded = false;
-            task = std::packaged_task<void()>(std::forward<Func>(newWork));
-            reset();
-            loaded = true;
+            updateTask(
+                std::packaged_task<void()>(std::forward<Func>(newWork)));
         }
         void updateTask(std::packaged_task<void()>&& newTask)
         {
+            // a task that cannot be used leaves the block as it was
+            auto newFuture = newTask.get_future();
             loaded = false;
             task = std::move(newTask);
-            reset();
+            future_ret = std::move(newFuture);
+            progress.rearm();
             loaded = true;
         }
         bool isFinished() const override { return progress.finished(); };
-- 
2.43.0


From f9ee7c2c96d3b943e7d8b5aaaac7781456ad61b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:29:16 +0000
Subject: [PATCH 46/47] fix: block iterators can be moved by negative amounts

Adding or subtracting a negative amount did not change the block and left the
iterator outside of its memory.
---
 gmlc/containers/BlockIterator.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gmlc/containers/BlockIterator.hpp b/gmlc/containers/BlockIterator.hpp
index f848f92..2e0edab 100644
--- a/gmlc/containers/BlockIterator.hpp
+++ b/gmlc/containers/BlockIterator.hpp
@@ -76,6 +76,7 @@ namespace containers {
             ptr += movement;
             offset += static_cast<int>(movement);
             check();
+            checkNeg();
             return (*this);
         }
         BlockIterator& operator++()
@@ -102,6 +103,7 @@ namespace containers {
             ptr -= movement;
             offset -= static_cast<int>(movement);
             checkNeg();
+            check();
             return (*this);
         }
         BlockIterator& operator--()
-- 
2.43.0


From fc547abd6ed79c44af6ba50470f2992847e099e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:29:16 +0000
Subject: [PATCH 47/47] fix: the distance between block iterators is a number

The type of the elements was used for it, so algorithms that count elements
did not compile or were limited by its range.
---
 gmlc/containers/BlockIterator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gmlc/containers/BlockIterator.hpp b/gmlc/containers/BlockIterator.hpp
index 2e0edab..6fd5192 100644
--- a/gmlc/containers/BlockIterator.hpp
+++ b/gmlc/containers/BlockIterator.hpp
@@ -25,7 +25,7 @@ namespace containers {
       public:
         using iterator_category = std::bidirectional_iterator_tag;
         using value_type = X;
-        using difference_type = X;
+        using difference_type = std::ptrdiff_t;
         using pointer = const typename std::remove_const<X>::type*;
         using reference = const typename std::remove_const<X>::type&;
         using constref = const typename std::remove_const<X>::type;
-- 
2.43.0

