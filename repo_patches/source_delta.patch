From be077bbd484107f6fcaf5552a1c0f8fde9695e8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:30:26 +0000
Subject: [PATCH 01/50] fix: do not strand pending tasks when the watching
 worker takes another task

A worker waiting for the start time of a delayed task may get woken up to
execute another one. If the other idle workers were put to sleep while the
queue was empty, nobody was left to start the delayed task in time.
---
 src/ThreadPool.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/ThreadPool.cc b/src/ThreadPool.cc
index b125758..b1c000d 100644
--- a/src/ThreadPool.cc
+++ b/src/ThreadPool.cc
@@ -239,8 +239,15 @@ void ThreadPool::perform_work()
         running_task_ids_.push_back(id);
         running_task_names_.push_back(name);
 
+        const bool has_more_tasks = !pending_tasks_.empty();
+
         lock.unlock();
 
+        // The notification that woke us up may have been the only one for the remaining
+        // tasks: Let another idle thread (if there is one) watch over their start times.
+        if (has_more_tasks)
+            cv_.notify_one();
+
         try
         {
             (*named_task_ptr)(*this);
-- 
2.43.0


From 543383bafffc76e7b586b5964c359b72d9206ff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:31:03 +0000
Subject: [PATCH 02/50] fix: keep the outcome of started tasks and report
 dropped tasks as canceled

TaskHandle::cancel() discarded the result of running or finished tasks although
it is documented to have no effect on them. A finished task was reported as
canceled after its result had been fetched, and a task that was removed by
cancel_pending_tasks() or by the destruction of the pool was reported as complete
because its future holds a broken promise.
---
 include/gul14/ThreadPool.h | 35 ++++++++++++++++++++++++++++-------
 1 file changed, 28 insertions(+), 7 deletions(-)

diff --git a/include/gul14/ThreadPool.h b/include/gul14/ThreadPool.h
index 4b8819b..53525d3 100644
--- a/include/gul14/ThreadPool.h
+++ b/include/gul14/ThreadPool.h
@@ -25,6 +25,7 @@
 #ifndef GUL14_THREADPOOL_H_
 #define GUL14_THREADPOOL_H_
 
+#include <atomic>
 #include <chrono>
 #include <condition_variable>
 #include <functional>
@@ -152,11 +153,14 @@ public:
          *                task
          * \param pool    A shared pointer to the ThreadPool that the task is associated
          *                with
+         * \param started A flag that gets set when the execution of the task begins
          */
-        TaskHandle(TaskId id, std::future<T> future, std::shared_ptr<ThreadPool> pool)
+        TaskHandle(TaskId id, std::future<T> future, std::shared_ptr<ThreadPool> pool,
+            std::shared_ptr<const std::atomic<bool>> started)
             : future_{ std::move(future) }
             , id_{ id }
             , pool_{ std::move(pool) }
+            , started_{ std::move(started) }
         {}
 
         /**
@@ -172,8 +176,13 @@ public:
          */
         bool cancel()
         {
-            future_ = {};
-            return detail::lock_pool_or_throw(pool_)->cancel_pending_task(id_);
+            const bool removed
+                = detail::lock_pool_or_throw(pool_)->cancel_pending_task(id_);
+
+            if (removed)
+                future_ = {};
+
+            return removed;
         }
 
         /**
@@ -203,10 +212,14 @@ public:
          */
         bool is_complete() const
         {
-            if (not future_.valid())
+            // A task that was removed from the queue before it was started has no result,
+            // even if its future is ready (with a "broken promise").
+            if (not started_ or not *started_)
                 return false;
 
-            return future_.wait_for(std::chrono::seconds(0)) == std::future_status::ready;
+            // The future is invalid if the result has already been retrieved.
+            return not future_.valid()
+                or future_.wait_for(std::chrono::seconds(0)) == std::future_status::ready;
         }
 
         /**
@@ -239,6 +252,7 @@ public:
         std::future<T> future_;
         TaskId id_{ 0 };
         std::weak_ptr<ThreadPool> pool_;
+        std::shared_ptr<const std::atomic<bool>> started_;
     };
 
 
@@ -325,7 +339,8 @@ public:
                     PackagedTask{ std::move(fct) }, std::move(name));
 
                 TaskHandle<Result> handle{
-                    next_task_id_, named_task_ptr->fct_.get_future(), shared_from_this() };
+                    next_task_id_, named_task_ptr->fct_.get_future(), shared_from_this(),
+                    named_task_ptr->started_ };
 
                 pending_tasks_.emplace_back(
                     next_task_id_, std::move(named_task_ptr), start_time);
@@ -482,9 +497,15 @@ private:
         , fct_{ std::move(fct) }
         {}
 
-        void operator()(ThreadPool& pool) override { fct_(pool); }
+        void operator()(ThreadPool& pool) override
+        {
+            *started_ = true;
+            fct_(pool);
+        }
 
         FunctionType fct_;
+        std::shared_ptr<std::atomic<bool>> started_{
+            std::make_shared<std::atomic<bool>>(false) };
     };
 
     struct Task
-- 
2.43.0


From e31a829fabe94fcb07d87d841c324930005bacae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:32:37 +0000
Subject: [PATCH 03/50] fix: destruct task function objects while the thread
 pool is unlocked

The function objects were destructed under the lock of the pool, which led to a
self-deadlock if a captured object used the pool in its destructor.
---
 src/ThreadPool.cc | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/ThreadPool.cc b/src/ThreadPool.cc
index b1c000d..f9051eb 100644
--- a/src/ThreadPool.cc
+++ b/src/ThreadPool.cc
@@ -81,12 +81,14 @@ ThreadPool::~ThreadPool()
 
 bool ThreadPool::cancel_pending_task(const TaskId task_id)
 {
+    Task task; // Destructed after the mutex has been unlocked
     std::lock_guard<std::mutex> lock(mutex_);
 
     auto it = std::find_if(pending_tasks_.begin(), pending_tasks_.end(),
         [task_id](const Task& t) { return t.id_ == task_id; });
     if (it != pending_tasks_.end())
     {
+        task = std::move(*it);
         pending_tasks_.erase(it);
         return true;
     }
@@ -96,12 +98,12 @@ bool ThreadPool::cancel_pending_task(const TaskId task_id)
 
 std::size_t ThreadPool::cancel_pending_tasks()
 {
+    std::vector<Task> tasks; // Destructed after the mutex has been unlocked
     std::lock_guard<std::mutex> lock(mutex_);
 
-    std::size_t num_removed = pending_tasks_.size();
-    pending_tasks_.clear();
+    pending_tasks_.swap(tasks);
 
-    return num_removed;
+    return tasks.size();
 }
 
 std::size_t ThreadPool::count_pending() const
@@ -259,6 +261,10 @@ void ThreadPool::perform_work()
             // to continue...
         }
 
+        // Destruct the function object while the mutex is unlocked: Its destructor might
+        // want to use the pool.
+        named_task_ptr.reset();
+
         lock.lock();
 
         auto it = std::find(running_task_ids_.begin(), running_task_ids_.end(), id);
-- 
2.43.0


From 92d4c1fc3431c190c562e66f96fae40a98b7c081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:56:57 +0000
Subject: [PATCH 04/50] fix: adding a task from a task must not extend the
 lifetime of the thread pool

add_task() temporarily held a shared pointer to the pool. If the owner dropped
the pool while a task was adding another one, the worker thread became the last
owner and tried to destruct its own pool while holding the mutex.
---
 include/gul14/ThreadPool.h | 14 +++++++++++---
 src/ThreadPool.cc          |  4 +++-
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/include/gul14/ThreadPool.h b/include/gul14/ThreadPool.h
index 53525d3..920aa3e 100644
--- a/include/gul14/ThreadPool.h
+++ b/include/gul14/ThreadPool.h
@@ -151,11 +151,11 @@ public:
          * \param id      Unique ID of the task
          * \param future  A std::future that will eventually contain the result of the
          *                task
-         * \param pool    A shared pointer to the ThreadPool that the task is associated
+         * \param pool    A weak pointer to the ThreadPool that the task is associated
          *                with
          * \param started A flag that gets set when the execution of the task begins
          */
-        TaskHandle(TaskId id, std::future<T> future, std::shared_ptr<ThreadPool> pool,
+        TaskHandle(TaskId id, std::future<T> future, std::weak_ptr<ThreadPool> pool,
             std::shared_ptr<const std::atomic<bool>> started)
             : future_{ std::move(future) }
             , id_{ id }
@@ -339,7 +339,7 @@ public:
                     PackagedTask{ std::move(fct) }, std::move(name));
 
                 TaskHandle<Result> handle{
-                    next_task_id_, named_task_ptr->fct_.get_future(), shared_from_this(),
+                    next_task_id_, named_task_ptr->fct_.get_future(), self_,
                     named_task_ptr->started_ };
 
                 pending_tasks_.emplace_back(
@@ -525,6 +525,14 @@ private:
 
     std::size_t capacity_{ 0 };
 
+    /**
+     * A weak pointer to this pool for the task handles. It is set before the pool is
+     * handed out. We must not use shared_from_this() when adding tasks: If it is called
+     * from a task, the worker thread may end up with the last shared pointer and would
+     * have to destruct its own pool.
+     */
+    std::weak_ptr<ThreadPool> self_;
+
     /**
      * The threads in the pool. This variable is only modified in the constructor and not
      * protected by the mutex.
diff --git a/src/ThreadPool.cc b/src/ThreadPool.cc
index f9051eb..fb65bf4 100644
--- a/src/ThreadPool.cc
+++ b/src/ThreadPool.cc
@@ -181,7 +181,9 @@ std::shared_ptr<ThreadPool> ThreadPool::make_shared(
     std::size_t num_threads, std::size_t capacity)
 {
     // We cannot use std::make_shared() because the constructor is private.
-    return std::shared_ptr<ThreadPool>(new ThreadPool(num_threads, capacity));
+    std::shared_ptr<ThreadPool> pool(new ThreadPool(num_threads, capacity));
+    pool->self_ = pool;
+    return pool;
 }
 
 void ThreadPool::perform_work()
-- 
2.43.0


From 609e238e142695d9c4cd91b0b5279189f3c468be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:19:29 +0000
Subject: [PATCH 05/50] fix: escape() also escapes the non-printable DEL
 character

---
 src/escape.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/escape.cc b/src/escape.cc
index d9c45c7..35e09be 100644
--- a/src/escape.cc
+++ b/src/escape.cc
@@ -60,7 +60,7 @@ std::string escape(string_view in)
                 escaped += "\\t";
                 break;
             default:
-                if (c < 32)
+                if (c < 32 || c == 127)
                 {
                     // This applies also to all non-ASCII characters (>127) because they
                     // are mapped to negative values
-- 
2.43.0


From 7bd9bf70073e3a81a081899af3090c93c2a219a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:19:29 +0000
Subject: [PATCH 06/50] fix: trim_sv() & Co. return a view into the input if
 everything is trimmed

---
 src/trim.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/trim.cc b/src/trim.cc
index e233ff9..26b8090 100644
--- a/src/trim.cc
+++ b/src/trim.cc
@@ -36,7 +36,7 @@ string_view trim_sv(string_view str, string_view ws_chars)
     const auto lpos = str.find_first_not_of(ws_chars);
 
     if (lpos == string_view::npos)
-        return "";
+        return str.substr(str.size());
 
     const auto rpos = str.find_last_not_of(ws_chars);
 
@@ -53,7 +53,7 @@ string_view trim_left_sv(string_view str, string_view ws_chars)
     const auto pos = str.find_first_not_of(ws_chars);
 
     if (pos == string_view::npos)
-        return "";
+        return str.substr(str.size());
 
     return str.substr(pos);
 }
@@ -68,7 +68,7 @@ string_view trim_right_sv(string_view str, string_view ws_chars)
     const auto pos = str.find_last_not_of(ws_chars);
 
     if (pos == string_view::npos)
-        return "";
+        return str.substr(0, 0);
 
     return str.substr(0, pos + 1);
 }
-- 
2.43.0


From 4d405e6b1b3c735aa399cdb02691c521a97eb75e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:23:47 +0000
Subject: [PATCH 07/50] fix: splitting by a regex that matches empty strings
 finds all pieces

---
 include/gul14/join_split.h | 2 --
 1 file changed, 2 deletions(-)

diff --git a/include/gul14/join_split.h b/include/gul14/join_split.h
index 47c1503..a5624ea 100644
--- a/include/gul14/join_split.h
+++ b/include/gul14/join_split.h
@@ -186,8 +186,6 @@ split(string_view text, const std::regex& delimiter,
     {
         auto previous = std::cregex_iterator{ };
         for (; parts != end; ++parts) {
-            if (parts == previous and not parts->length())
-                break;
             auto const& match = parts->prefix();
             insert_fct(result, string_view(match.first, match.length()));
             previous = parts;
-- 
2.43.0


From 8a847150c76f48fa6bf8855a354419afb6355698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:25:01 +0000
Subject: [PATCH 08/50] fix: safe_string() handles huge lengths without pointer
 overflow

---
 src/string_util.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/string_util.cc b/src/string_util.cc
index 2917a83..57b58ad 100644
--- a/src/string_util.cc
+++ b/src/string_util.cc
@@ -46,9 +46,12 @@ std::string safe_string(const char* char_ptr, std::size_t length)
     if (char_ptr == nullptr)
         return "";
 
-    auto end_ptr = std::find(char_ptr, char_ptr + length, '\0');
+    // Do not calculate char_ptr + length because it overflows for huge lengths
+    std::size_t end = 0;
+    while (end < length && char_ptr[end] != '\0')
+        ++end;
 
-    return std::string(char_ptr, end_ptr);
+    return std::string(char_ptr, end);
 }
 
 } // namespace gul14
-- 
2.43.0


From 21515d34aa6c52f6c000dc3c04c0d911d9e8fdc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:27:23 +0000
Subject: [PATCH 09/50] fix: string_view::substr() clamps huge lengths instead
 of overflowing

---
 include/gul14/string_view.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/gul14/string_view.h b/include/gul14/string_view.h
index 3f070a4..97647f6 100644
--- a/include/gul14/string_view.h
+++ b/include/gul14/string_view.h
@@ -214,7 +214,7 @@ public:
     constexpr basic_string_view substr(size_type pos, size_type n=npos) const {
         if ( pos > size())
             throw std::out_of_range ( "string_view::substr" );
-        if (n == npos || pos + n > size())
+        if (n > size() - pos)
             n = size () - pos;
         return basic_string_view(data() + pos, n);
     }
-- 
2.43.0


From 59ca965d9ec0b2f495d3bd57ac15b57fcb0ad0de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:27:23 +0000
Subject: [PATCH 10/50] fix: string_view::compare() throws for invalid
 positions instead of terminating

---
 include/gul14/string_view.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/gul14/string_view.h b/include/gul14/string_view.h
index 97647f6..998a886 100644
--- a/include/gul14/string_view.h
+++ b/include/gul14/string_view.h
@@ -225,7 +225,7 @@ public:
     }
 
     constexpr int compare(size_type pos1, size_type n1, basic_string_view x)
-    const noexcept {
+    const {
         return substr(pos1, n1).compare(x);
     }
 
-- 
2.43.0


From 528583440cc2a2b3fde47544547e159b0fff757d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:42:23 +0000
Subject: [PATCH 11/50] fix: SmallVector accepts references to its own elements
 as arguments

---
 include/gul14/SmallVector.h | 85 +++++++++++++++++++++++++------------
 1 file changed, 58 insertions(+), 27 deletions(-)

diff --git a/include/gul14/SmallVector.h b/include/gul14/SmallVector.h
index 57cd2ec..e76faa1 100644
--- a/include/gul14/SmallVector.h
+++ b/include/gul14/SmallVector.h
@@ -672,10 +672,33 @@ public:
     Reference emplace_back(ArgumentTypes&&... arguments)
     {
         if (size_ == capacity_)
-            grow();
+        {
+            // Construct the new element before moving the existing ones because the
+            // arguments might refer to them
+            const auto new_capacity = get_grown_capacity();
+            auto new_data = std::make_unique<AlignedStorage[]>(new_capacity);
+            const auto new_begin = reinterpret_cast<ValueType*>(new_data.get());
+
+            ::new(static_cast<void*>(new_begin + size_))
+                ValueType(std::forward<ArgumentTypes>(arguments)...);
 
-        ::new(static_cast<void*>(data_end()))
-            ValueType(std::forward<ArgumentTypes>(arguments)...);
+            try
+            {
+                uninitialized_move_or_copy(data(), data_end(), new_begin);
+            }
+            catch (...)
+            {
+                new_begin[size_].~ValueType();
+                throw;
+            }
+
+            replace_storage(std::move(new_data), new_capacity);
+        }
+        else
+        {
+            ::new(static_cast<void*>(data_end()))
+                ValueType(std::forward<ArgumentTypes>(arguments)...);
+        }
 
         ++size_;
 
@@ -1014,12 +1037,7 @@ public:
      */
     void push_back(const ValueType& value)
     {
-        if (size_ == capacity_)
-            grow();
-
-        ::new(static_cast<void*>(data_end())) ValueType(value);
-
-        ++size_;
+        emplace_back(value);
     }
 
     /**
@@ -1032,12 +1050,7 @@ public:
      */
     void push_back(ValueType&& value)
     {
-        if (size_ == capacity_)
-            grow();
-
-        ::new(static_cast<void*>(data_end())) ValueType(std::move(value));
-
-        ++size_;
+        emplace_back(std::move(value));
     }
 
     /**
@@ -1076,16 +1089,10 @@ public:
 
         auto new_data = std::make_unique<AlignedStorage[]>(new_capacity);
 
-        const auto d_end = data_end();
-
-        uninitialized_move_or_copy(data(), d_end, reinterpret_cast<ValueType*>(new_data.get()));
-        destroy_range(data(), d_end);
-
-        if (is_storage_allocated())
-            delete[] data_ptr_;
+        uninitialized_move_or_copy(data(), data_end(),
+            reinterpret_cast<ValueType*>(new_data.get()));
 
-        data_ptr_ = new_data.release();
-        capacity_ = new_capacity;
+        replace_storage(std::move(new_data), new_capacity);
     }
 
     /**
@@ -1141,8 +1148,10 @@ public:
         }
         else if (num_elements > size_)
         {
+            // Reserving invalidates references to elements of this vector
+            const ValueType value(element);
             reserve(num_elements);
-            copy_value_into_uninitialized_cells(size_, num_elements - size_, element);
+            copy_value_into_uninitialized_cells(size_, num_elements - size_, value);
         }
 
         size_ = num_elements;
@@ -1381,6 +1390,12 @@ private:
      *            reached and cannot be increased.
      */
     void grow()
+    {
+        reserve(get_grown_capacity());
+    }
+
+    /// Determine the capacity after growing (see grow()).
+    SizeType get_grown_capacity() const
     {
         const auto remaining_space = std::numeric_limits<SizeType>::max() - capacity_;
 
@@ -1393,7 +1408,7 @@ private:
         else if (increase == 0u)
             increase = 1u;
 
-        reserve(capacity_ + increase);
+        return capacity_ + increase;
     }
 
     /// Insert a single value before the given position.
@@ -1408,6 +1423,9 @@ private:
 
         const auto idx = static_cast<SizeType>(pos - begin());
 
+        // Growing and moving invalidate references to elements of this vector
+        ValueType new_value(std::forward<T>(value));
+
         if (size_ == capacity_)
             grow();
 
@@ -1421,7 +1439,7 @@ private:
         std::move_backward(insert_pos, data_ptr + size_ - 1, data_ptr + size_);
         ++size_;
 
-        *insert_pos = std::forward<T>(value);
+        *insert_pos = std::move(new_value);
 
         return insert_pos;
     }
@@ -1508,6 +1526,19 @@ private:
         }
     }
 
+    /// Replace the storage by a new one to which all elements were already moved/copied.
+    void replace_storage(std::unique_ptr<AlignedStorage[]> new_data,
+                         SizeType new_capacity) noexcept
+    {
+        destroy_range(data(), data_end());
+
+        if (is_storage_allocated())
+            delete[] data_ptr_;
+
+        data_ptr_ = new_data.release();
+        capacity_ = new_capacity;
+    }
+
     /**
      * Swap two SmallVectors, assuming that both have elements on the heap.
      *
-- 
2.43.0


From f3ebbfccf15ed328b83d74df6846446e05702326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:42:23 +0000
Subject: [PATCH 12/50] fix: SmallVector::erase() of an empty range leaves the
 elements untouched

---
 include/gul14/SmallVector.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/gul14/SmallVector.h b/include/gul14/SmallVector.h
index e76faa1..88c72d0 100644
--- a/include/gul14/SmallVector.h
+++ b/include/gul14/SmallVector.h
@@ -761,6 +761,10 @@ public:
         auto range_end = const_cast<Iterator>(last);
         auto num_elements = range_end - range_begin;
 
+        // Do not self-move elements
+        if (num_elements == 0)
+            return range_begin;
+
         std::move(range_end, end(), range_begin);
         destroy_range(end() - num_elements, end());
 
-- 
2.43.0


From 056ba2c63cc5b24bb6abb3414221fad7392d74b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:42:23 +0000
Subject: [PATCH 13/50] fix: SmallVector does not leak elements if inserting or
 copying throws

---
 include/gul14/SmallVector.h | 107 ++++++++++++++----------------------
 1 file changed, 41 insertions(+), 66 deletions(-)

diff --git a/include/gul14/SmallVector.h b/include/gul14/SmallVector.h
index 88c72d0..6cd038b 100644
--- a/include/gul14/SmallVector.h
+++ b/include/gul14/SmallVector.h
@@ -840,17 +840,20 @@ public:
         if (num_elements < 1)
             return begin() + idx;
 
-        const SizeType num_assignable = make_space_at_idx_for_n_elements(idx, num_elements);
-        Iterator insert_pos = begin() + idx;
-
-        // Copy-assign to moved-from elements
-        std::fill_n(insert_pos, num_assignable, value);
+        if (num_elements > max_size() - size_)
+            throw std::length_error("Max. capacity reached");
 
-        // Copy the remaining values into uninitialized cells
-        copy_value_into_uninitialized_cells(size_, num_elements - num_assignable, value);
+        // Reserving invalidates references to elements of this vector
+        const ValueType new_value(value);
 
+        // Append the new elements, then rotate them into place
+        reserve(size_ + num_elements);
+        copy_value_into_uninitialized_cells(size_, num_elements, new_value);
         size_ += num_elements;
 
+        Iterator insert_pos = begin() + idx;
+        std::rotate(insert_pos, end() - num_elements, end());
+
         return insert_pos;
     }
 
@@ -878,20 +881,13 @@ public:
     Iterator insert(ConstIterator pos, InputIterator first, InputIterator last)
     {
         const auto idx = static_cast<SizeType>(pos - begin());
-        const auto num_elements = static_cast<SizeType>(std::distance(first, last));
-        if (num_elements < 1)
-            return begin() + idx;
-
-        const SizeType num_assignable = make_space_at_idx_for_n_elements(idx, num_elements);
-        Iterator insert_pos = begin() + idx;
+        const auto old_size = size_;
 
-        // Copy-assign to moved-from elements
-        std::copy_n(first, num_assignable, insert_pos);
+        // Append the new elements, then rotate them into place
+        append_copied_range(first, last);
 
-        // Copy the remaining values into uninitialized cells
-        copy_range_into_uninitialized_cells(size_, first + num_assignable, last);
-
-        size_ += num_elements;
+        Iterator insert_pos = begin() + idx;
+        std::rotate(insert_pos, begin() + old_size, end());
 
         return insert_pos;
     }
@@ -1242,6 +1238,17 @@ private:
     /// Number of elements stored in the container.
     SizeType size_{ 0u };
 
+    /// Append copies of the elements from the given range at the back of the vector.
+    template<typename InputIterator>
+    void append_copied_range(InputIterator first, InputIterator last)
+    {
+        const auto num_elements = static_cast<SizeType>(std::distance(first, last));
+
+        reserve(size_ + num_elements);
+        copy_range_into_uninitialized_cells(size_, first, last);
+        size_ += num_elements;
+    }
+
     /**
      * Copy a range of values into uninitialized cells.
      *
@@ -1288,8 +1295,18 @@ private:
     {
         const auto start_ptr = data() + pos;
         const auto end_ptr = start_ptr + num_elements;
-        for (auto p = start_ptr; p != end_ptr; ++p)
-            ::new(static_cast<void*>(p)) ValueType(value);
+        auto ptr = start_ptr;
+
+        try
+        {
+            for (; ptr != end_ptr; ++ptr)
+                ::new(static_cast<void*>(ptr)) ValueType(value);
+        }
+        catch (...)
+        {
+            destroy_range(start_ptr, ptr);
+            throw;
+        }
     }
 
     /// Return a non-dereferencable pointer past the last element.
@@ -1335,11 +1352,7 @@ private:
     template<typename InputIterator>
     void fill_empty_vector_with_copied_range(InputIterator first, InputIterator last)
     {
-        const auto num_elements = static_cast<SizeType>(std::distance(first, last));
-
-        reserve(num_elements);
-        copy_range_into_uninitialized_cells(0u, first, last);
-        size_ = num_elements;
+        append_copied_range(first, last);
     }
 
     /**
@@ -1439,10 +1452,10 @@ private:
 
         // Construct new back() element by moving from the old back()
         ::new(static_cast<void*>(data_ptr + size_)) ValueType(std::move(*(data_ptr + size_ - 1)));
-
-        std::move_backward(insert_pos, data_ptr + size_ - 1, data_ptr + size_);
         ++size_;
 
+        std::move_backward(insert_pos, data_ptr + size_ - 2, data_ptr + size_ - 1);
+
         *insert_pos = std::move(new_value);
 
         return insert_pos;
@@ -1454,44 +1467,6 @@ private:
         return data_ptr_ != internal_array_.data();
     }
 
-    /**
-     * Reserve space to hold num_elements new elements and create space for them at
-     * the position idx, moving existing elements backwards if necessary.
-     * The newly created "hole" consists of
-     * - some cells with moved-from values whose number is returned. These cells can be
-     *   assigned to directly.
-     * - some uninitialized cells which require placement new to be filled.
-     * \returns the number of moved-from elements in the new space that can be assigned
-     *          to directly.
-     */
-    SizeType make_space_at_idx_for_n_elements(SizeType idx, SizeType num_elements)
-    {
-        const auto new_size = size_ + num_elements;
-
-        if (new_size > capacity_)
-            reserve(new_size);
-
-        auto data_ptr = data();
-
-        // We have a total number of elements that need to be shifted backwards,
-        // of which some need to be move-initialized at the end of the vector
-        // and some simply need to be moved from one element to another.
-        const SizeType num_shifted = size_ - idx;
-        const SizeType num_move_initialized = std::min(num_shifted, num_elements);
-        const SizeType num_moved = num_shifted - num_move_initialized;
-
-        // Move-initialize elements in uninitialized space at the back of the container
-        const auto from_ptr = data_ptr + size_ - num_move_initialized;
-        const auto to_ptr = from_ptr + num_elements;
-        for (SizeType i = 0; i != num_move_initialized; ++i)
-            ::new(static_cast<void*>(to_ptr + i)) ValueType(std::move(*(from_ptr + i)));
-
-        // Move elements backwards within old vector size
-        std::move_backward(data_ptr + idx, data_ptr + idx + num_moved, to_ptr);
-
-        return num_move_initialized;
-    }
-
     /**
      * Steal all elements from another SmallVector with move semantics.
      *
-- 
2.43.0


From 4f3b1f6c2022cdf270db846beda183532be577bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:42:23 +0000
Subject: [PATCH 14/50] fix: SmallVector does not leak memory if a constructor
 throws

---
 include/gul14/SmallVector.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/gul14/SmallVector.h b/include/gul14/SmallVector.h
index 6cd038b..c71d58d 100644
--- a/include/gul14/SmallVector.h
+++ b/include/gul14/SmallVector.h
@@ -323,14 +323,12 @@ public:
      * \param num_elements  The number of initial elements
      */
     explicit SmallVector(SizeType num_elements)
+        : SmallVector()
     {
         static_assert(std::is_default_constructible<ValueType>::value,
             "SmallVector: Element type is not default-constructible");
 
-        reserve(num_elements);
-        for (SizeType i = 0u; i != num_elements; ++i)
-            ::new(static_cast<void*>(data() + i)) ValueType{};
-        size_ = num_elements;
+        resize(num_elements);
     }
 
     /**
@@ -341,6 +339,7 @@ public:
      * \param value         The value to be copied to the initial elements
      */
     SmallVector(SizeType num_elements, const ValueType& value)
+        : SmallVector()
     {
         fill_empty_vector_with_copied_value(num_elements, value);
     }
@@ -364,6 +363,7 @@ public:
     template<class InputIterator,
              typename = std::enable_if_t<not std::is_integral<InputIterator>::value>>
     SmallVector(InputIterator first, InputIterator last)
+        : SmallVector()
     {
         fill_empty_vector_with_copied_range(first, last);
     }
@@ -378,6 +378,7 @@ public:
      */
     SmallVector(const SmallVector& other)
         noexcept(std::is_nothrow_copy_constructible<ValueType>::value)
+        : SmallVector()
     {
         static_assert(std::is_copy_constructible<ValueType>::value == true,
             "SmallVector: Element type is not copy-constructible");
@@ -413,6 +414,7 @@ public:
      *          list exceeds max_size().
      */
     SmallVector(std::initializer_list<ValueType> init)
+        : SmallVector()
     {
         fill_empty_vector_with_copied_range(init.begin(), init.end());
     }
-- 
2.43.0


From 96a25df3ef6201340628d17d82323590d6164eb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:42:23 +0000
Subject: [PATCH 15/50] fix: SmallVector accepts ranges of single-pass input
 iterators

---
 include/gul14/SmallVector.h | 29 +++++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/include/gul14/SmallVector.h b/include/gul14/SmallVector.h
index c71d58d..3daf30f 100644
--- a/include/gul14/SmallVector.h
+++ b/include/gul14/SmallVector.h
@@ -1243,6 +1243,35 @@ private:
     /// Append copies of the elements from the given range at the back of the vector.
     template<typename InputIterator>
     void append_copied_range(InputIterator first, InputIterator last)
+    {
+        append_copied_range(first, last,
+            typename std::iterator_traits<InputIterator>::iterator_category{});
+    }
+
+    /// \overload for single-pass iterators
+    template<typename InputIterator>
+    void append_copied_range(InputIterator first, InputIterator last,
+                             std::input_iterator_tag)
+    {
+        const auto old_size = size_;
+
+        try
+        {
+            for (; first != last; ++first)
+                emplace_back(*first);
+        }
+        catch (...)
+        {
+            destroy_range(data() + old_size, data_end());
+            size_ = old_size;
+            throw;
+        }
+    }
+
+    /// \overload for multi-pass iterators
+    template<typename ForwardIterator>
+    void append_copied_range(ForwardIterator first, ForwardIterator last,
+                             std::forward_iterator_tag)
     {
         const auto num_elements = static_cast<SizeType>(std::distance(first, last));
 
-- 
2.43.0


From 69fdc3fa8e6db32ed8ca5ca5f820f063a8040eb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:42:23 +0000
Subject: [PATCH 16/50] fix: copying a SmallVector must not use
 initializer-list constructors of elements

---
 include/gul14/SmallVector.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/gul14/SmallVector.h b/include/gul14/SmallVector.h
index 3daf30f..0e6170f 100644
--- a/include/gul14/SmallVector.h
+++ b/include/gul14/SmallVector.h
@@ -1302,7 +1302,7 @@ private:
         {
             for (auto it = first; it != last; ++it)
             {
-                ::new(static_cast<void*>(data_ptr)) ValueType{ *it };
+                ::new(static_cast<void*>(data_ptr)) ValueType(*it);
                 ++data_ptr;
             }
         }
-- 
2.43.0


From 69dbbf08720c47d51e1d9c907cae4c90057a23c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:42:23 +0000
Subject: [PATCH 17/50] fix: SmallVector copy assignment propagates exceptions
 of the element copy constructor

---
 include/gul14/SmallVector.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/gul14/SmallVector.h b/include/gul14/SmallVector.h
index 0e6170f..4574446 100644
--- a/include/gul14/SmallVector.h
+++ b/include/gul14/SmallVector.h
@@ -931,7 +931,7 @@ public:
      * Copy assignment is only possible if the element type itself is copyable.
      */
     SmallVector& operator=(const SmallVector& other)
-        noexcept(std::is_nothrow_copy_assignable<ValueType>::value)
+        noexcept(std::is_nothrow_copy_constructible<ValueType>::value)
     {
         if (&other != this)
         {
-- 
2.43.0


From e501e409950c83e866d7837e4912bee7b41ed943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:58:28 +0000
Subject: [PATCH 18/50] fix: constant reverse iterators of SlidingBuffer can be
 dereferenced

---
 include/gul14/SlidingBuffer.h | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/gul14/SlidingBuffer.h b/include/gul14/SlidingBuffer.h
index ab9c2a9..35809c2 100644
--- a/include/gul14/SlidingBuffer.h
+++ b/include/gul14/SlidingBuffer.h
@@ -656,10 +656,14 @@ public:
         using value_type = ElementT;
         /// Distance between iterators is represented as this type.
         using difference_type = std::ptrdiff_t;
-        /// This type represents a pointer-to-value_type.
-        using pointer = value_type*;
-        /// This type represents a reference-to-value_type.
-        using reference = value_type&;
+        /// This type represents a pointer-to-(const-)value_type.
+        using pointer = typename std::conditional_t<
+            std::is_const<std::remove_pointer_t<BufferPointer>>::value,
+            typename Container::const_pointer, typename Container::pointer>;
+        /// This type represents a reference-to-(const-)value_type.
+        using reference = typename std::conditional_t<
+            std::is_const<std::remove_pointer_t<BufferPointer>>::value,
+            typename Container::const_reference, typename Container::reference>;
 
         /**
          * Create an iterator pointing into a SlidingBuffer.
-- 
2.43.0


From e8a9807bfd7276c1319e9b66876dc32db68eeb0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:58:28 +0000
Subject: [PATCH 19/50] fix: SlidingBufferExposed::end() does not include
 vacant elements after pop_front()

---
 include/gul14/SlidingBuffer.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/gul14/SlidingBuffer.h b/include/gul14/SlidingBuffer.h
index 35809c2..bfb3c64 100644
--- a/include/gul14/SlidingBuffer.h
+++ b/include/gul14/SlidingBuffer.h
@@ -1169,7 +1169,7 @@ public:
      */
     auto end() noexcept -> iterator
     {
-        if (full_ or idx_begin_ != 0)
+        if (full_ or idx_end_ < idx_begin_)
             return storage_.end();
 
         return storage_.begin() + idx_end_;
@@ -1189,7 +1189,7 @@ public:
      */
     auto cend() const noexcept -> const_iterator
     {
-        if (full_ or idx_begin_ != 0)
+        if (full_ or idx_end_ < idx_begin_)
             return storage_.cend();
 
         return storage_.cbegin() + idx_end_;
-- 
2.43.0


From 09c625a800ca6cc47ce0f2f43287ec7261cd602e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:11 +0000
Subject: [PATCH 20/50] fix: vacant elements of a SlidingBuffer are
 default-constructed also after popping and growing

---
 include/gul14/SlidingBuffer.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/gul14/SlidingBuffer.h b/include/gul14/SlidingBuffer.h
index bfb3c64..a89ddcc 100644
--- a/include/gul14/SlidingBuffer.h
+++ b/include/gul14/SlidingBuffer.h
@@ -271,6 +271,9 @@ public:
     {
         decrease_idx(idx_end_);
         full_ = false;
+
+        // Elements outside of the filled part are always default-constructed
+        storage_[idx_end_] = value_type{};
     }
 
     /**
@@ -286,6 +289,9 @@ public:
      */
     auto pop_front() -> void
     {
+        // Elements outside of the filled part are always default-constructed
+        storage_[idx_begin_] = value_type{};
+
         increase_idx(idx_begin_);
         full_ = false;
     }
@@ -1292,8 +1298,8 @@ public:
         // Growing
         if (new_capacity > old_capacity) {
             storage_.resize(new_capacity);
-            std::move_backward(storage_.begin() + idx_begin_,
-                               storage_.begin() + old_capacity, storage_.end());
+            std::rotate(storage_.begin() + idx_begin_,
+                        storage_.begin() + old_capacity, storage_.end());
             idx_begin_ += new_capacity - old_capacity;
             return;
         }
-- 
2.43.0


From d7dbce5b2338e4dcb586ac73a9c1b8b1eb29a1fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:10:54 +0000
Subject: [PATCH 21/50] fix: operator!= of expected<void, E> compares the
 errors for inequality

---
 include/gul14/expected.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/gul14/expected.h b/include/gul14/expected.h
index 91354be..8f406c8 100644
--- a/include/gul14/expected.h
+++ b/include/gul14/expected.h
@@ -2171,7 +2171,7 @@ constexpr bool operator!=(const expected<void, E> &lhs,
                           const expected<void, F> &rhs) {
   return (lhs.has_value() != rhs.has_value())
              ? true
-             : (!lhs.has_value() ? lhs.error() == rhs.error() : false);
+             : (!lhs.has_value() ? lhs.error() != rhs.error() : false);
 }
 
 template <class T, class E, class U>
-- 
2.43.0


From c0574f43660a016ff29e5e3084bad44214149a8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:12:05 +0000
Subject: [PATCH 22/50] fix: constructing an expected from another one
 propagates exceptions and does not leak a default value

---
 include/gul14/expected.h | 149 +++++++++++++++++++++++++--------------
 1 file changed, 95 insertions(+), 54 deletions(-)

diff --git a/include/gul14/expected.h b/include/gul14/expected.h
index 8f406c8..255dd63 100644
--- a/include/gul14/expected.h
+++ b/include/gul14/expected.h
@@ -371,6 +371,13 @@ struct expected_storage_base {
   constexpr expected_storage_base() : m_val(T{}), m_has_val(true) {}
   constexpr expected_storage_base(no_init_t) : m_no_init(), m_has_val(false) {}
 
+  // The initializer constructs the value or the error and returns true for a
+  // value. If it throws, nothing has been constructed.
+  template <class Init>
+  expected_storage_base(no_init_t, Init init)
+      : m_no_init(),
+        m_has_val(init(std::addressof(m_val), std::addressof(m_unexpect))) {}
+
   template <class... Args,
             detail::enable_if_t<std::is_constructible<T, Args &&...>::value> * =
                 nullptr>
@@ -418,6 +425,13 @@ template <class T, class E> struct expected_storage_base<T, E, true, true> {
   constexpr expected_storage_base() : m_val(T{}), m_has_val(true) {}
   constexpr expected_storage_base(no_init_t) : m_no_init(), m_has_val(false) {}
 
+  // The initializer constructs the value or the error and returns true for a
+  // value. If it throws, nothing has been constructed.
+  template <class Init>
+  expected_storage_base(no_init_t, Init init)
+      : m_no_init(),
+        m_has_val(init(std::addressof(m_val), std::addressof(m_unexpect))) {}
+
   template <class... Args,
             detail::enable_if_t<std::is_constructible<T, Args &&...>::value> * =
                 nullptr>
@@ -459,6 +473,13 @@ template <class T, class E> struct expected_storage_base<T, E, true, false> {
   constexpr expected_storage_base(no_init_t)
       : m_no_init(), m_has_val(false) {}
 
+  // The initializer constructs the value or the error and returns true for a
+  // value. If it throws, nothing has been constructed.
+  template <class Init>
+  expected_storage_base(no_init_t, Init init)
+      : m_no_init(),
+        m_has_val(init(std::addressof(m_val), std::addressof(m_unexpect))) {}
+
   template <class... Args,
             detail::enable_if_t<std::is_constructible<T, Args &&...>::value> * =
                 nullptr>
@@ -504,6 +525,13 @@ template <class T, class E> struct expected_storage_base<T, E, false, true> {
   constexpr expected_storage_base() : m_val(T{}), m_has_val(true) {}
   constexpr expected_storage_base(no_init_t) : m_no_init(), m_has_val(false) {}
 
+  // The initializer constructs the value or the error and returns true for a
+  // value. If it throws, nothing has been constructed.
+  template <class Init>
+  expected_storage_base(no_init_t, Init init)
+      : m_no_init(),
+        m_has_val(init(std::addressof(m_val), std::addressof(m_unexpect))) {}
+
   template <class... Args,
             detail::enable_if_t<std::is_constructible<T, Args &&...>::value> * =
                 nullptr>
@@ -554,6 +582,10 @@ template <class E> struct expected_storage_base<void, E, false, true> {
 
   constexpr expected_storage_base(no_init_t) : m_val(), m_has_val(false) {}
 
+  template <class Init>
+  expected_storage_base(no_init_t, Init init)
+      : m_val(), m_has_val(init(std::addressof(m_unexpect))) {}
+
   constexpr expected_storage_base(in_place_t) : m_has_val(true) {}
 
   template <class... Args,
@@ -584,6 +616,10 @@ template <class E> struct expected_storage_base<void, E, false, false> {
   constexpr expected_storage_base() : m_dummy(), m_has_val(true) {}
   constexpr expected_storage_base(no_init_t) : m_dummy(), m_has_val(false) {}
 
+  template <class Init>
+  expected_storage_base(no_init_t, Init init)
+      : m_dummy(), m_has_val(init(std::addressof(m_unexpect))) {}
+
   constexpr expected_storage_base(in_place_t) : m_dummy(), m_has_val(true) {}
 
   template <class... Args,
@@ -624,11 +660,6 @@ struct expected_operations_base : expected_storage_base<T, E> {
     this->m_has_val = true;
   }
 
-  template <class Rhs> void construct_with(Rhs &&rhs) noexcept {
-    new (std::addressof(this->m_val)) T(std::forward<Rhs>(rhs).get());
-    this->m_has_val = true;
-  }
-
   template <class... Args> void construct_error(Args &&...args) noexcept {
     new (std::addressof(this->m_unexpect))
         unexpected<E>(std::forward<Args>(args)...);
@@ -803,12 +834,6 @@ struct expected_operations_base<void, E> : expected_storage_base<void, E> {
 
   template <class... Args> void construct() noexcept { this->m_has_val = true; }
 
-  // This function doesn't use its argument, but needs it so that code in
-  // levels above this can work independently of whether T is void
-  template <class Rhs> void construct_with(Rhs &&) noexcept {
-    this->m_has_val = true;
-  }
-
   template <class... Args> void construct_error(Args &&...args) noexcept {
     new (std::addressof(this->m_unexpect))
         unexpected<E>(std::forward<Args>(args)...);
@@ -848,6 +873,44 @@ struct expected_operations_base<void, E> : expected_storage_base<void, E> {
   }
 };
 
+// Constructs the contents of an expected from those of another one
+template <class Rhs> struct expected_copy_init {
+  Rhs &&rhs;
+
+  template <class T, class E>
+  bool operator()(T *val, unexpected<E> *err) const {
+    if (!rhs.has_value())
+      return (*this)(err);
+    ::new (static_cast<void *>(val)) T(std::forward<Rhs>(rhs).get());
+    return true;
+  }
+
+  template <class E> bool operator()(unexpected<E> *err) const {
+    if (rhs.has_value())
+      return true;
+    ::new (static_cast<void *>(err))
+        unexpected<E>(std::forward<Rhs>(rhs).geterr());
+    return false;
+  }
+};
+
+// Constructs the contents of an expected from those of a different type of
+// expected
+template <class Rhs> struct expected_convert_init {
+  Rhs &&rhs;
+
+  template <class T, class E>
+  bool operator()(T *val, unexpected<E> *err) const {
+    if (rhs.has_value()) {
+      ::new (static_cast<void *>(val)) T(*std::forward<Rhs>(rhs));
+      return true;
+    }
+    ::new (static_cast<void *>(err))
+        unexpected<E>(std::forward<Rhs>(rhs).error());
+    return false;
+  }
+};
+
 // This class manages conditionally having a trivial copy constructor
 // This specialization is for when T and E are trivially copy constructible
 template <class T, class E,
@@ -864,13 +927,8 @@ struct expected_copy_base<T, E, false> : expected_operations_base<T, E> {
 
   expected_copy_base() = default;
   expected_copy_base(const expected_copy_base &rhs)
-      : expected_operations_base<T, E>(no_init) {
-    if (rhs.has_value()) {
-      this->construct_with(rhs);
-    } else {
-      this->construct_error(rhs.geterr());
-    }
-  }
+      : expected_operations_base<T, E>(
+            no_init, expected_copy_init<const expected_copy_base &>{rhs}) {}
 
   expected_copy_base(expected_copy_base &&rhs) = default;
   expected_copy_base &operator=(const expected_copy_base &rhs) = default;
@@ -893,14 +951,11 @@ struct expected_move_base<T, E, false> : expected_copy_base<T, E> {
   expected_move_base(const expected_move_base &rhs) = default;
 
   expected_move_base(expected_move_base &&rhs) noexcept(
-      std::is_nothrow_move_constructible<T>::value)
-      : expected_copy_base<T, E>(no_init) {
-    if (rhs.has_value()) {
-      this->construct_with(std::move(rhs));
-    } else {
-      this->construct_error(std::move(rhs.geterr()));
-    }
-  }
+      is_void_or<T, std::is_nothrow_move_constructible<T>>::value
+          &&std::is_nothrow_move_constructible<E>::value)
+      : expected_copy_base<T, E>(
+            no_init,
+            expected_copy_init<expected_move_base>{std::move(rhs)}) {}
   expected_move_base &operator=(const expected_move_base &rhs) = default;
   expected_move_base &operator=(expected_move_base &&rhs) = default;
 };
@@ -1492,13 +1547,9 @@ public:
             detail::expected_enable_from_other<T, E, U, G, const U &, const G &>
                 * = nullptr>
   explicit constexpr expected(const expected<U, G> &rhs)
-      : ctor_base(detail::default_constructor_tag{}) {
-    if (rhs.has_value()) {
-      this->construct(*rhs);
-    } else {
-      this->construct_error(rhs.error());
-    }
-  }
+      : impl_base(detail::no_init,
+                  detail::expected_convert_init<const expected<U, G> &>{rhs}),
+        ctor_base(detail::default_constructor_tag{}) {}
 
   template <class U, class G,
             detail::enable_if_t<(std::is_convertible<U const &, T>::value &&
@@ -1507,13 +1558,9 @@ public:
             detail::expected_enable_from_other<T, E, U, G, const U &, const G &>
                 * = nullptr>
   constexpr expected(const expected<U, G> &rhs)
-      : ctor_base(detail::default_constructor_tag{}) {
-    if (rhs.has_value()) {
-      this->construct(*rhs);
-    } else {
-      this->construct_error(rhs.error());
-    }
-  }
+      : impl_base(detail::no_init,
+                  detail::expected_convert_init<const expected<U, G> &>{rhs}),
+        ctor_base(detail::default_constructor_tag{}) {}
 
   template <
       class U, class G,
@@ -1521,13 +1568,10 @@ public:
                             std::is_convertible<G &&, E>::value)> * = nullptr,
       detail::expected_enable_from_other<T, E, U, G, U &&, G &&> * = nullptr>
   explicit constexpr expected(expected<U, G> &&rhs)
-      : ctor_base(detail::default_constructor_tag{}) {
-    if (rhs.has_value()) {
-      this->construct(std::move(*rhs));
-    } else {
-      this->construct_error(std::move(rhs.error()));
-    }
-  }
+      : impl_base(
+            detail::no_init,
+            detail::expected_convert_init<expected<U, G>>{std::move(rhs)}),
+        ctor_base(detail::default_constructor_tag{}) {}
 
   template <
       class U, class G,
@@ -1535,13 +1579,10 @@ public:
                            std::is_convertible<G &&, E>::value)> * = nullptr,
       detail::expected_enable_from_other<T, E, U, G, U &&, G &&> * = nullptr>
   constexpr expected(expected<U, G> &&rhs)
-      : ctor_base(detail::default_constructor_tag{}) {
-    if (rhs.has_value()) {
-      this->construct(std::move(*rhs));
-    } else {
-      this->construct_error(std::move(rhs.error()));
-    }
-  }
+      : impl_base(
+            detail::no_init,
+            detail::expected_convert_init<expected<U, G>>{std::move(rhs)}),
+        ctor_base(detail::default_constructor_tag{}) {}
 
   template <
       class U = T,
-- 
2.43.0


From 572bf1278c100ffb28801e3cd86ed5c545e03c2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:33 +0000
Subject: [PATCH 23/50] fix: assigning, emplacing and swapping in an expected
 keeps a valid state if T or E throws

---
 include/gul14/expected.h | 281 ++++++++++++++-------------------------
 1 file changed, 102 insertions(+), 179 deletions(-)

diff --git a/include/gul14/expected.h b/include/gul14/expected.h
index 255dd63..936ba5d 100644
--- a/include/gul14/expected.h
+++ b/include/gul14/expected.h
@@ -649,154 +649,94 @@ template <class E> struct expected_storage_base<void, E, false, false> {
   bool m_has_val;
 };
 
-// This base class provides some handy member functions which can be used in
-// further derived classes
-template <class T, class E>
-struct expected_operations_base : expected_storage_base<T, E> {
-  using expected_storage_base<T, E>::expected_storage_base;
-
-  template <class... Args> void construct(Args &&...args) noexcept {
-    new (std::addressof(this->m_val)) T(std::forward<Args>(args)...);
-    this->m_has_val = true;
-  }
-
-  template <class... Args> void construct_error(Args &&...args) noexcept {
-    new (std::addressof(this->m_unexpect))
-        unexpected<E>(std::forward<Args>(args)...);
-    this->m_has_val = false;
-  }
-
-#ifdef GUL14_EXPECTED_EXCEPTIONS_ENABLED
-
-  // These assign overloads ensure that the most efficient assignment
-  // implementation is used while maintaining the strong exception guarantee.
-  // The problematic case is where rhs has a value, but *this does not.
-  //
-  // This overload handles the case where we can just copy-construct `T`
-  // directly into place without throwing.
-  template <class U = T,
-            detail::enable_if_t<std::is_nothrow_copy_constructible<U>::value>
-                * = nullptr>
-  void assign(const expected_operations_base &rhs) noexcept {
-    if (!this->m_has_val && rhs.m_has_val) {
-      geterr().~unexpected<E>();
-      construct(rhs.get());
-    } else {
-      assign_common(rhs);
-    }
-  }
-
-  // This overload handles the case where we can attempt to create a copy of
-  // `T`, then no-throw move it into place if the copy was successful.
-  template <class U = T,
-            detail::enable_if_t<!std::is_nothrow_copy_constructible<U>::value &&
-                                std::is_nothrow_move_constructible<U>::value>
-                * = nullptr>
-  void assign(const expected_operations_base &rhs) noexcept {
-    if (!this->m_has_val && rhs.m_has_val) {
-      T tmp = rhs.get();
-      geterr().~unexpected<E>();
-      construct(std::move(tmp));
-    } else {
-      assign_common(rhs);
-    }
-  }
+// Replace one alternative of an expected by a newly constructed one. If the
+// construction throws, the old alternative is kept. The overloads are for:
+// (1) construction never throws
+template <class New, class Old, class... Args,
+          detail::enable_if_t<std::is_nothrow_constructible<
+              New, Args &&...>::value> * = nullptr>
+void expected_reinit(New *new_obj, Old *old_obj, Args &&...args) noexcept {
+  old_obj->~Old();
+  ::new (static_cast<void *>(new_obj)) New(std::forward<Args>(args)...);
+}
 
-  // This overload is the worst-case, where we have to move-construct the
-  // unexpected value into temporary storage, then try to copy the T into place.
-  // If the construction succeeds, then everything is fine, but if it throws,
-  // then we move the old unexpected value back into place before rethrowing the
-  // exception.
-  template <class U = T,
-            detail::enable_if_t<!std::is_nothrow_copy_constructible<U>::value &&
-                                !std::is_nothrow_move_constructible<U>::value>
-                * = nullptr>
-  void assign(const expected_operations_base &rhs) {
-    if (!this->m_has_val && rhs.m_has_val) {
-      auto tmp = std::move(geterr());
-      geterr().~unexpected<E>();
+// (2) construction may throw, but moving does not
+template <
+    class New, class Old, class... Args,
+    detail::enable_if_t<
+        !std::is_nothrow_constructible<New, Args &&...>::value &&
+        std::is_nothrow_move_constructible<New>::value> * = nullptr>
+void expected_reinit(New *new_obj, Old *old_obj, Args &&...args) {
+  New tmp(std::forward<Args>(args)...);
+  old_obj->~Old();
+  ::new (static_cast<void *>(new_obj)) New(std::move(tmp));
+}
 
+// (3) construction and moving may throw: Move the old alternative away and
+// back if necessary
+template <
+    class New, class Old, class... Args,
+    detail::enable_if_t<
+        !std::is_nothrow_constructible<New, Args &&...>::value &&
+        !std::is_nothrow_move_constructible<New>::value &&
+        std::is_move_constructible<Old>::value> * = nullptr>
+void expected_reinit(New *new_obj, Old *old_obj, Args &&...args) {
+  Old tmp(std::move(*old_obj));
+  old_obj->~Old();
 #ifdef GUL14_EXPECTED_EXCEPTIONS_ENABLED
-      try {
-        construct(rhs.get());
-      } catch (...) {
-        geterr() = std::move(tmp);
-        throw;
-      }
-#else
-      construct(rhs.get());
-#endif
-    } else {
-      assign_common(rhs);
-    }
-  }
-
-  // These overloads do the same as above, but for rvalues
-  template <class U = T,
-            detail::enable_if_t<std::is_nothrow_move_constructible<U>::value>
-                * = nullptr>
-  void assign(expected_operations_base &&rhs) noexcept {
-    if (!this->m_has_val && rhs.m_has_val) {
-      geterr().~unexpected<E>();
-      construct(std::move(rhs).get());
-    } else {
-      assign_common(std::move(rhs));
-    }
+  try {
+    ::new (static_cast<void *>(new_obj)) New(std::forward<Args>(args)...);
+  } catch (...) {
+    ::new (static_cast<void *>(old_obj)) Old(std::move(tmp));
+    throw;
   }
-
-  template <class U = T,
-            detail::enable_if_t<!std::is_nothrow_move_constructible<U>::value>
-                * = nullptr>
-  void assign(expected_operations_base &&rhs) {
-    if (!this->m_has_val && rhs.m_has_val) {
-      auto tmp = std::move(geterr());
-      geterr().~unexpected<E>();
-#ifdef GUL14_EXPECTED_EXCEPTIONS_ENABLED
-      try {
-        construct(std::move(rhs).get());
-      } catch (...) {
-        geterr() = std::move(tmp);
-        throw;
-      }
 #else
-      construct(std::move(rhs).get());
+  ::new (static_cast<void *>(new_obj)) New(std::forward<Args>(args)...);
 #endif
-    } else {
-      assign_common(std::move(rhs));
-    }
-  }
+}
 
-#else
+// (4) construction may throw, but the old alternative cannot be kept
+template <
+    class New, class Old, class... Args,
+    detail::enable_if_t<
+        !std::is_nothrow_constructible<New, Args &&...>::value &&
+        !std::is_nothrow_move_constructible<New>::value &&
+        !std::is_move_constructible<Old>::value> * = nullptr>
+void expected_reinit(New *new_obj, Old *old_obj, Args &&...args) noexcept {
+  old_obj->~Old();
+  ::new (static_cast<void *>(new_obj)) New(std::forward<Args>(args)...);
+}
 
-  // If exceptions are disabled then we can just copy-construct
-  void assign(const expected_operations_base &rhs) noexcept {
-    if (!this->m_has_val && rhs.m_has_val) {
-      geterr().~unexpected<E>();
-      construct(rhs.get());
-    } else {
-      assign_common(rhs);
-    }
-  }
+// This base class provides some handy member functions which can be used in
+// further derived classes
+template <class T, class E>
+struct expected_operations_base : expected_storage_base<T, E> {
+  using expected_storage_base<T, E>::expected_storage_base;
 
-  void assign(expected_operations_base &&rhs) noexcept {
+  // Copy or move assignment with the strong exception guarantee if one of T
+  // and E is nothrow-move-constructible and only the kind of the contents
+  // changes.
+  template <class Rhs> void assign(Rhs &&rhs) {
     if (!this->m_has_val && rhs.m_has_val) {
-      geterr().~unexpected<E>();
-      construct(std::move(rhs).get());
+      expected_reinit(std::addressof(this->m_val),
+                      std::addressof(this->m_unexpect),
+                      std::forward<Rhs>(rhs).get());
+      this->m_has_val = true;
     } else {
-      assign_common(std::move(rhs));
+      assign_common(std::forward<Rhs>(rhs));
     }
   }
 
-#endif
-
   // The common part of move/copy assigning
   template <class Rhs> void assign_common(Rhs &&rhs) {
     if (this->m_has_val) {
       if (rhs.m_has_val) {
         get() = std::forward<Rhs>(rhs).get();
       } else {
-        destroy_val();
-        construct_error(std::forward<Rhs>(rhs).geterr());
+        expected_reinit(std::addressof(this->m_unexpect),
+                        std::addressof(this->m_val),
+                        std::forward<Rhs>(rhs).geterr());
+        this->m_has_val = false;
       }
     } else {
       if (!rhs.m_has_val) {
@@ -834,13 +774,13 @@ struct expected_operations_base<void, E> : expected_storage_base<void, E> {
 
   template <class... Args> void construct() noexcept { this->m_has_val = true; }
 
-  template <class... Args> void construct_error(Args &&...args) noexcept {
+  template <class... Args> void construct_error(Args &&...args) {
     new (std::addressof(this->m_unexpect))
         unexpected<E>(std::forward<Args>(args)...);
     this->m_has_val = false;
   }
 
-  template <class Rhs> void assign(Rhs &&rhs) noexcept {
+  template <class Rhs> void assign(Rhs &&rhs) {
     if (!this->m_has_val) {
       if (rhs.m_has_val) {
         geterr().~unexpected<E>();
@@ -1017,8 +957,10 @@ struct expected_move_assign_base<T, E, false>
 
   expected_move_assign_base &
   operator=(expected_move_assign_base &&rhs) noexcept(
-      std::is_nothrow_move_constructible<T>::value
-          &&std::is_nothrow_move_assignable<T>::value) {
+      is_void_or<T, conjunction<std::is_nothrow_move_constructible<T>,
+                                std::is_nothrow_move_assignable<T>>>::value
+          &&std::is_nothrow_move_constructible<E>::value
+              &&std::is_nothrow_move_assignable<E>::value) {
     this->assign(std::move(rhs));
     return *this;
   }
@@ -1638,21 +1580,8 @@ public:
     if (has_value()) {
       val() = std::forward<U>(v);
     } else {
-      auto tmp = std::move(err());
-      err().~unexpected<E>();
-
-#ifdef GUL14_EXPECTED_EXCEPTIONS_ENABLED
-      try {
-        ::new (valptr()) T(std::forward<U>(v));
-        this->m_has_val = true;
-      } catch (...) {
-        err() = std::move(tmp);
-        throw;
-      }
-#else
-      ::new (valptr()) T(std::forward<U>(v));
+      detail::expected_reinit(valptr(), errptr(), std::forward<U>(v));
       this->m_has_val = true;
-#endif
     }
 
     return *this;
@@ -1676,7 +1605,8 @@ public:
   template <class G = E,
             detail::enable_if_t<std::is_nothrow_move_constructible<G>::value &&
                                 std::is_move_assignable<G>::value> * = nullptr>
-  expected &operator=(unexpected<G> &&rhs) noexcept {
+  expected &operator=(unexpected<G> &&rhs) noexcept(
+      std::is_nothrow_move_assignable<G>::value) {
     if (!has_value()) {
       err() = std::move(rhs);
     } else {
@@ -1704,24 +1634,16 @@ public:
                                T, Args &&...>::value> * = nullptr>
   void emplace(Args &&...args) {
     if (has_value()) {
-      val().~T();
-      ::new (valptr()) T(std::forward<Args>(args)...);
+      emplace_over_value(
+          detail::conjunction<
+              detail::conditional_t<
+                  std::is_nothrow_move_constructible<T>::value,
+                  std::false_type, std::true_type>,
+              std::is_move_assignable<T>>{},
+          std::forward<Args>(args)...);
     } else {
-      auto tmp = std::move(err());
-      err().~unexpected<E>();
-
-#ifdef GUL14_EXPECTED_EXCEPTIONS_ENABLED
-      try {
-        ::new (valptr()) T(std::forward<Args>(args)...);
-        this->m_has_val = true;
-      } catch (...) {
-        err() = std::move(tmp);
-        throw;
-      }
-#else
-      ::new (valptr()) T(std::forward<Args>(args)...);
+      detail::expected_reinit(valptr(), errptr(), std::forward<Args>(args)...);
       this->m_has_val = true;
-#endif
     }
   }
 
@@ -1747,21 +1669,9 @@ public:
       T t(il, std::forward<Args>(args)...);
       val() = std::move(t);
     } else {
-      auto tmp = std::move(err());
-      err().~unexpected<E>();
-
-#ifdef GUL14_EXPECTED_EXCEPTIONS_ENABLED
-      try {
-        ::new (valptr()) T(il, std::forward<Args>(args)...);
-        this->m_has_val = true;
-      } catch (...) {
-        err() = std::move(tmp);
-        throw;
-      }
-#else
-      ::new (valptr()) T(il, std::forward<Args>(args)...);
+      detail::expected_reinit(valptr(), errptr(), il,
+                              std::forward<Args>(args)...);
       this->m_has_val = true;
-#endif
     }
   }
 
@@ -1773,6 +1683,19 @@ private:
   using e_is_nothrow_move_constructible = std::true_type;
   using move_constructing_e_can_throw = std::false_type;
 
+  // Replace the value by a newly constructed one, by assignment if this is
+  // the only way to always keep a value
+  template <class... Args>
+  void emplace_over_value(std::true_type, Args &&...args) {
+    T tmp(std::forward<Args>(args)...);
+    val() = std::move(tmp);
+  }
+
+  template <class... Args>
+  void emplace_over_value(std::false_type, Args &&...args) {
+    detail::expected_reinit(valptr(), valptr(), std::forward<Args>(args)...);
+  }
+
   void swap_where_both_have_value(expected & /*rhs*/, t_is_void) noexcept {
     // swapping void is a no-op
   }
@@ -1818,7 +1741,7 @@ private:
       ::new (rhs.valptr()) T(std::move(temp));
       std::swap(this->m_has_val, rhs.m_has_val);
     } catch (...) {
-      val() = std::move(temp);
+      ::new (valptr()) T(std::move(temp));
       throw;
     }
 #else
@@ -1841,7 +1764,7 @@ private:
       ::new (errptr()) unexpected_type(std::move(temp));
       std::swap(this->m_has_val, rhs.m_has_val);
     } catch (...) {
-      rhs.err() = std::move(temp);
+      ::new (rhs.errptr()) unexpected_type(std::move(temp));
       throw;
     }
 #else
-- 
2.43.0


From 915a3c935b5a360f7e8596fc8ff081d3aeb94d1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:15:47 +0000
Subject: [PATCH 24/50] fix: expected<void, E> objects can be swapped

---
 include/gul14/expected.h | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/include/gul14/expected.h b/include/gul14/expected.h
index 936ba5d..c71943c 100644
--- a/include/gul14/expected.h
+++ b/include/gul14/expected.h
@@ -1777,13 +1777,15 @@ private:
 
 public:
   template <class OT = T, class OE = E>
-  detail::enable_if_t<detail::is_swappable<OT>::value &&
-                      detail::is_swappable<OE>::value &&
-                      (std::is_nothrow_move_constructible<OT>::value ||
-                       std::is_nothrow_move_constructible<OE>::value)>
+  detail::enable_if_t<
+      detail::is_void_or<OT, detail::is_swappable<OT>>::value &&
+      detail::is_swappable<OE>::value &&
+      (detail::is_void_or<OT, std::is_nothrow_move_constructible<OT>>::value ||
+       std::is_nothrow_move_constructible<OE>::value)>
   swap(expected &rhs) noexcept(
-      std::is_nothrow_move_constructible<T>::value
-          &&detail::is_nothrow_swappable<T>::value
+      detail::is_void_or<
+          T, detail::conjunction<std::is_nothrow_move_constructible<T>,
+                                 detail::is_nothrow_swappable<T>>>::value
               &&std::is_nothrow_move_constructible<E>::value
                   &&detail::is_nothrow_swappable<E>::value) {
     if (has_value() && rhs.has_value()) {
@@ -2175,7 +2177,8 @@ constexpr bool operator!=(const unexpected<E> &e, const expected<T, E> &x) {
 template <class T, class E,
           detail::enable_if_t<(std::is_void<T>::value ||
                                std::is_move_constructible<T>::value) &&
-                              detail::is_swappable<T>::value &&
+                              detail::is_void_or<
+                                  T, detail::is_swappable<T>>::value &&
                               std::is_move_constructible<E>::value &&
                               detail::is_swappable<E>::value> * = nullptr>
 void swap(expected<T, E> &lhs,
-- 
2.43.0


From 422755ef31861b2b358ccb2393778b6fb0c67c53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:24:02 +0000
Subject: [PATCH 25/50] fix: finally() copies a closure that is passed as an
 lvalue

---
 include/gul14/finalizer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/gul14/finalizer.h b/include/gul14/finalizer.h
index 54df935..33fceb4 100644
--- a/include/gul14/finalizer.h
+++ b/include/gul14/finalizer.h
@@ -167,7 +167,7 @@ public:
  */
 template <typename F>
 FinalAction<typename std::decay_t<F>> finally(F&& f) noexcept {
-    return FinalAction<typename std::decay_t<F>>(std::forward<typename std::decay_t<F>>(f));
+    return FinalAction<typename std::decay_t<F>>(std::forward<F>(f));
 }
 
 /// @}
-- 
2.43.0


From 9cc284ec8e76a0eb5bc4b5d6ef660d100ccc431d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:44:14 +0000
Subject: [PATCH 26/50] fix: to_number() rejects floating-point literals with
 garbage after many digits

---
 include/gul14/to_number.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/gul14/to_number.h b/include/gul14/to_number.h
index e8bdb15..19d0703 100644
--- a/include/gul14/to_number.h
+++ b/include/gul14/to_number.h
@@ -181,6 +181,14 @@ constexpr inline gul14::optional<NumberType> to_normalized_float(gul14::string_v
             >= std::numeric_limits<NumberType>::digits10,
             "FloatConversionIntType is too small for NumberType");
 
+    // Excess digits do not contribute to the result, but they must be valid
+    for (char c : i1)
+        if (!is_digit(c))
+            return nullopt;
+    for (char c : i2)
+        if (!is_digit(c))
+            return nullopt;
+
     i1 = i1.substr(0, std::min(i1.length(),
                 size_t(std::numeric_limits<FloatConversionIntType<NumberType>>::digits10)));
     i2 = i2.substr(0, std::min(i2.length(),
-- 
2.43.0


From ef20c5e54a9f9bed5b1f310eb19fdea50d15d492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:44:33 +0000
Subject: [PATCH 27/50] fix: to_number() handles huge exponents without integer
 overflow

---
 include/gul14/to_number.h | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/include/gul14/to_number.h b/include/gul14/to_number.h
index 19d0703..55235ba 100644
--- a/include/gul14/to_number.h
+++ b/include/gul14/to_number.h
@@ -312,7 +312,8 @@ constexpr inline optional<NumberType> to_unsigned_float(gul14::string_view str)
     if (inf_nan.result_valid)
         return inf_nan.result;
 
-    int exponent = 0;
+    // The parsed exponent fits an int, but adjusting it while normalizing may exceed the range
+    long long exponent = 0;
     auto e_pos = str.find_first_of("eE");
     if (e_pos != gul14::string_view::npos)
     {
@@ -359,9 +360,9 @@ constexpr inline optional<NumberType> to_unsigned_float(gul14::string_view str)
 
         str_before_point = str_after_point.substr(0, 1);
         str_after_point.remove_prefix(1);
-        exponent -= static_cast<int>(old_digits - str_after_point.length());
+        exponent -= static_cast<long long>(old_digits - str_after_point.length());
     } else {
-        exponent += static_cast<int>(str_before_point.length() - 1);
+        exponent += static_cast<long long>(str_before_point.length() - 1);
     }
 
     // Now the incoming number string is like this:
@@ -378,7 +379,14 @@ constexpr inline optional<NumberType> to_unsigned_float(gul14::string_view str)
     if (not norm_val.has_value())
         return nullopt;
 
-    return detail::pow10(exponent) * *norm_val;
+    // Exponents of this size yield infinity or zero anyway
+    constexpr long long max_exponent = std::numeric_limits<int>::max();
+    if (exponent > max_exponent)
+        exponent = max_exponent;
+    else if (exponent < -max_exponent)
+        exponent = -max_exponent;
+
+    return detail::pow10(static_cast<int>(exponent)) * *norm_val;
 }
 
 /**
-- 
2.43.0


From e65b7625a5f07c770f53795737ac724826390134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:53:32 +0000
Subject: [PATCH 28/50] fix: gcd() and lcm() accept the lowest value of a
 signed type

---
 include/gul14/gcd_lcm.h | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/include/gul14/gcd_lcm.h b/include/gul14/gcd_lcm.h
index 36f5438..5646f35 100644
--- a/include/gul14/gcd_lcm.h
+++ b/include/gul14/gcd_lcm.h
@@ -78,17 +78,24 @@ gcd(IntTypeA a, IntTypeB b)
 
     using CommonType = std::common_type_t<IntTypeA, IntTypeB>;
 
-    auto c = gul14::abs(static_cast<CommonType>(a));
-    auto d = gul14::abs(static_cast<CommonType>(b));
+    // The absolute value of the lowest signed number can only be represented as unsigned
+    using UnsignedType = typename std::conditional_t<
+        std::is_unsigned<CommonType>::value,
+        std::common_type<CommonType>, std::make_unsigned<CommonType>>::type;
+
+    auto c = static_cast<UnsignedType>(a < 0 ? UnsignedType{ 0 } - static_cast<UnsignedType>(a)
+                                             : static_cast<UnsignedType>(a));
+    auto d = static_cast<UnsignedType>(b < 0 ? UnsignedType{ 0 } - static_cast<UnsignedType>(b)
+                                             : static_cast<UnsignedType>(b));
 
     while (d != 0)
     {
-        CommonType tmp = d;
+        UnsignedType tmp = d;
         d = c % d;
         c = tmp;
     }
 
-    return c;
+    return static_cast<CommonType>(c);
 }
 
 /**
-- 
2.43.0


From 764e20098b912d330a04786714334465ee43f425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:55:52 +0000
Subject: [PATCH 29/50] fix: within_abs() and within_orders() do not overflow
 for integers

The differences are now calculated with unsigned types. Before, within_orders()
wrapped around for unsigned a < b, and both functions overflowed if the
difference or the magnitude of an operand was not representable.
---
 include/gul14/num_util.h | 46 +++++++++++++++++++++++++++++-----------
 1 file changed, 34 insertions(+), 12 deletions(-)

diff --git a/include/gul14/num_util.h b/include/gul14/num_util.h
index 63ddadf..e69facb 100644
--- a/include/gul14/num_util.h
+++ b/include/gul14/num_util.h
@@ -64,6 +64,28 @@ constexpr auto abs(ValueT n) noexcept -> std::enable_if_t<not std::is_unsigned<V
     return std::abs(n);
 }
 
+namespace detail {
+
+/**
+ * Return the absolute difference between two numbers.
+ * For integers, the result is an unsigned type so that the calculation cannot overflow.
+ */
+template <typename NumT, std::enable_if_t<std::is_integral<NumT>::value, bool> = true>
+constexpr auto abs_difference(NumT a, NumT b) noexcept
+{
+    using Unsigned = std::make_unsigned_t<decltype(a - b)>;
+    return (a > b) ? static_cast<Unsigned>(a) - static_cast<Unsigned>(b)
+                   : static_cast<Unsigned>(b) - static_cast<Unsigned>(a);
+}
+
+template <typename NumT, std::enable_if_t<not std::is_integral<NumT>::value, bool> = true>
+constexpr auto abs_difference(NumT a, NumT b) noexcept
+{
+    return (a > b) ? a - b : b - a;
+}
+
+} // namespace detail
+
 /**
  * Determine if two numbers are almost equal, comparing only some significant digits.
  *
@@ -96,10 +118,11 @@ template<typename NumT, typename OrderT,
     >>
 bool within_orders(const NumT a, const NumT b, const OrderT orders) noexcept(false) {
     // std::pow() is not noexcept, which might or might not be true
-    auto difference = gul14::abs(a - b);
-    if (difference == NumT{ 0 })
+    auto difference = detail::abs_difference(a, b);
+    if (difference == decltype(difference){ 0 })
         return true;
-    auto maximum = std::max(gul14::abs(a), gul14::abs(b));
+    auto maximum = std::max(detail::abs_difference(a, NumT{ 0 }),
+                            detail::abs_difference(b, NumT{ 0 }));
     auto limit = maximum / std::pow(static_cast<std::decay_t<NumT>>(10.0), orders);
     return difference < limit;
 }
@@ -117,18 +140,17 @@ bool within_orders(const NumT a, const NumT b, const OrderT orders) noexcept(fal
  */
 template<typename NumT>
 bool within_abs(NumT a, NumT b, NumT tol) noexcept {
-    tol = gul14::abs(tol); // Negative diff does not make sense
     bool ret{};
-    if (a > b) {
-        if (std::is_floating_point<NumT>::value)
-            ret = a - tol <= b; // different formula needed because of inf/-inf and subnormal values
-        else
-            ret = a - b <= tol;
+    if (not std::is_floating_point<NumT>::value) {
+        // Negative tol does not make sense
+        ret = detail::abs_difference(a, b) <= detail::abs_difference(tol, NumT{ 0 });
     } else {
-        if (std::is_floating_point<NumT>::value)
-            ret = b - tol <= a;
+        tol = gul14::abs(tol); // Negative tol does not make sense
+        // different formula needed because of inf/-inf and subnormal values
+        if (a > b)
+            ret = a - tol <= b;
         else
-            ret = b - a <= tol;
+            ret = b - tol <= a;
     }
     return ret;
 }
-- 
2.43.0


From d573bd0541627cd58856b2d44037f8d6bf6ac2f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:56:07 +0000
Subject: [PATCH 30/50] fix: within_abs() does not report finite numbers as
 close to -infinity

---
 include/gul14/num_util.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/gul14/num_util.h b/include/gul14/num_util.h
index e69facb..54c6360 100644
--- a/include/gul14/num_util.h
+++ b/include/gul14/num_util.h
@@ -147,8 +147,12 @@ bool within_abs(NumT a, NumT b, NumT tol) noexcept {
     } else {
         tol = gul14::abs(tol); // Negative tol does not make sense
         // different formula needed because of inf/-inf and subnormal values
+        // (lowest: an overflow must not be mistaken for being close to -inf)
+        const NumT lowest = std::numeric_limits<NumT>::lowest();
         if (a > b)
-            ret = a - tol <= b;
+            ret = std::max<NumT>(a - tol, lowest) <= b;
+        else if (a < b)
+            ret = std::max<NumT>(b - tol, lowest) <= a;
         else
             ret = b - tol <= a;
     }
-- 
2.43.0


From 426a16a0d2b3fe6c6143d96c8280680fce4075f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:56:33 +0000
Subject: [PATCH 31/50] fix: clamp() returns a reference to v if it is
 equivalent to a boundary

This is what the documentation promises; NaN and negative zeros are now also
passed through like by the overload with a comparison function.
---
 include/gul14/num_util.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/gul14/num_util.h b/include/gul14/num_util.h
index 54c6360..d0868d9 100644
--- a/include/gul14/num_util.h
+++ b/include/gul14/num_util.h
@@ -232,7 +232,7 @@ bool within_ulp(NumT a, NumT b, unsigned int ulp)
  */
 template<class NumT>
 constexpr const NumT& clamp(const NumT& v, const NumT& lo, const NumT& hi) {
-    return std::max(lo, std::min(v, hi)); // usually more optimized than actually using operator<()
+    return (v < lo) ? lo : (hi < v) ? hi : v;
 }
 /**
  * \overload
-- 
2.43.0


From 62649edc044eca6e41ca37c7f08d78908eaf4a48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:59:44 +0000
Subject: [PATCH 32/50] fix: remove_outliers() can be called with two iterators

The call was always forwarded to the modifying overload and failed to compile.
---
 include/gul14/statistics.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/gul14/statistics.h b/include/gul14/statistics.h
index 23a5d3f..280bd68 100644
--- a/include/gul14/statistics.h
+++ b/include/gul14/statistics.h
@@ -789,7 +789,9 @@ template <typename IteratorT,
 auto remove_outliers(IteratorT const& begin, IteratorT const& end,
         std::size_t outliers, Accessor accessor = ElementAccessor<ElementT>()) -> std::vector<ElementT>
 {
-    return remove_outliers(make_view(begin, end), outliers, accessor);
+    // A named view is needed to select the non-modifying overload
+    auto const view = make_view(begin, end);
+    return remove_outliers(view, outliers, accessor);
 }
 
 /**
-- 
2.43.0


From a4261dfb26a843f14db375e35c13405ea31881f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:04:29 +0000
Subject: [PATCH 33/50] fix: median() with an integral result type does not
 lose a remainder

The median of {1, 3} was calculated as 1/2 + 3/2 = 1.
---
 include/gul14/statistics.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/gul14/statistics.h b/include/gul14/statistics.h
index 280bd68..4b59b16 100644
--- a/include/gul14/statistics.h
+++ b/include/gul14/statistics.h
@@ -269,7 +269,12 @@ auto median(ContainerT const& container, Accessor accessor = ElementAccessor<Ele
     // We calculate the mean value of the two 'middle' elements
     if (0 == len % 2) {
         std::nth_element(data_copy.begin(), middle - 1, data_copy.end());
-        median = (median / 2) + (static_cast<ResultT>(*(middle - 1)) / 2);
+        auto const lower = static_cast<ResultT>(*(middle - 1));
+        auto half_sum = (median / 2) + (lower / 2);
+        // For integers, the halves may have lost a remainder
+        if (std::is_integral<ResultT>::value)
+            half_sum += ((median - median / 2 * 2) + (lower - lower / 2 * 2)) / 2;
+        median = static_cast<ResultT>(half_sum);
     }
 
     return median;
-- 
2.43.0


From 4fc7837f7260b6768f5ed24755956d55b5d55151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:20:39 +0000
Subject: [PATCH 34/50] fix: date::parse() compiles

---
 include/gul14/date.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/gul14/date.h b/include/gul14/date.h
index 31f4757..bfef857 100644
--- a/include/gul14/date.h
+++ b/include/gul14/date.h
@@ -7639,10 +7639,10 @@ public:
         , offset_(offset)
         {}
 
-    parse_manip(gul14::basic_string_view<CharT, Traits> format, Parsable& tp,
-                std::basic_string<CharT, Traits, Alloc>* abbrev = nullptr,
+    parse_manip(gul14::basic_string_view<CharT, gul14::char_traits<CharT, Traits>> format,
+                Parsable& tp, std::basic_string<CharT, Traits, Alloc>* abbrev = nullptr,
                 std::chrono::minutes* offset = nullptr)
-        : format_(format)
+        : format_(format.begin(), format.end())
         , tp_(tp)
         , abbrev_(abbrev)
         , offset_(offset)
-- 
2.43.0


From 213021662171344b4863efffc15a9d4bd2d2f748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:21:45 +0000
Subject: [PATCH 35/50] fix: %F and %D format years before 0 correctly

---
 include/gul14/date.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/gul14/date.h b/include/gul14/date.h
index bfef857..ec4b4d3 100644
--- a/include/gul14/date.h
+++ b/include/gul14/date.h
@@ -4730,7 +4730,7 @@ to_stream(std::basic_ostream<CharT, Traits>& os, const CharT* fmt,
                         os.width(2);
                         os << static_cast<unsigned>(ymd.day()) << CharT{'/'};
                         os.width(2);
-                        os << static_cast<int>(ymd.year()) % 100;
+                        os << std::abs(static_cast<int>(ymd.year())) % 100;
                     }
 #endif  // ONLY_C_LOCALE
                 }
@@ -4839,7 +4839,7 @@ to_stream(std::basic_ostream<CharT, Traits>& os, const CharT* fmt,
                     os.width(2);
                     os << static_cast<unsigned>(ymd.day()) << CharT{'/'};
                     os.width(2);
-                    os << static_cast<int>(ymd.year()) % 100;
+                    os << std::abs(static_cast<int>(ymd.year())) % 100;
                 }
                 else
                 {
@@ -4862,8 +4862,8 @@ to_stream(std::basic_ostream<CharT, Traits>& os, const CharT* fmt,
                     save_ostream<CharT, Traits> _(os);
                     os.imbue(std::locale::classic());
                     os.fill('0');
-                    os.flags(std::ios::dec | std::ios::right);
-                    os.width(4);
+                    os.flags(std::ios::dec | std::ios::internal);
+                    os.width(4 + (ymd.year() < year{0}));
                     os << static_cast<int>(ymd.year()) << CharT{'-'};
                     os.width(2);
                     os << static_cast<unsigned>(ymd.month()) << CharT{'-'};
-- 
2.43.0


From c805290def9214cb013c648c284c83e5b1c74c36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:25:24 +0000
Subject: [PATCH 36/50] fix: %R formats the sign of negative durations

---
 include/gul14/date.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/gul14/date.h b/include/gul14/date.h
index ec4b4d3..5679d1a 100644
--- a/include/gul14/date.h
+++ b/include/gul14/date.h
@@ -5177,6 +5177,11 @@ to_stream(std::basic_ostream<CharT, Traits>& os, const CharT* fmt,
                 {
                     if (!fds.has_tod)
                         os.setstate(std::ios::failbit);
+                    if (insert_negative)
+                    {
+                        os << '-';
+                        insert_negative = false;
+                    }
                     if (fds.tod.hours() < hours{10})
                         os << CharT{'0'};
                     os << fds.tod.hours().count() << CharT{':'};
-- 
2.43.0


From d06a10b3d28c5d2869068b7f6f9e485bebc08680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:28:05 +0000
Subject: [PATCH 37/50] fix: parsing a date with %p recognizes PM

---
 include/gul14/date.h | 34 +++++++++++++++++++++-------------
 1 file changed, 21 insertions(+), 13 deletions(-)

diff --git a/include/gul14/date.h b/include/gul14/date.h
index 5679d1a..b268371 100644
--- a/include/gul14/date.h
+++ b/include/gul14/date.h
@@ -4475,6 +4475,13 @@ ampm_names()
     return std::make_pair(nm, nm+sizeof(nm)/sizeof(nm[0]));
 }
 
+}  // namespace detail
+
+#endif  // ONLY_C_LOCALE
+
+namespace detail
+{
+
 template <class CharT, class Traits, class FwdIter>
 FwdIter
 scan_keyword(std::basic_istream<CharT, Traits>& is, FwdIter kb, FwdIter ke)
@@ -4581,8 +4588,6 @@ scan_keyword(std::basic_istream<CharT, Traits>& is, FwdIter kb, FwdIter ke)
 
 }  // namespace detail
 
-#endif  // ONLY_C_LOCALE
-
 template <class CharT, class Traits, class Duration>
 std::basic_ostream<CharT, Traits>&
 to_stream(std::basic_ostream<CharT, Traits>& os, const CharT* fmt,
@@ -6718,17 +6723,20 @@ from_stream(std::basic_istream<CharT, Traits>& is, const CharT* fmt,
                     {
                         int tp = not_a_ampm;
 #if !ONLY_C_LOCALE
-                        tm = std::tm{};
-                        tm.tm_hour = 1;
-                        ios::iostate err = ios::goodbit;
-                        f.get(is, nullptr, is, err, &tm, command, fmt+1);
-                        is.setstate(err);
-                        if (tm.tm_hour == 1)
-                            tp = 0;
-                        else if (tm.tm_hour == 13)
-                            tp = 1;
-                        else
-                            is.setstate(err);
+                        // std::time_get needs not reveal the result of a lone %p, so look for
+                        // the names that the locale uses for AM and PM
+                        std::basic_string<CharT, Traits> nm[2];
+                        for (int i = 0; i != 2; ++i)
+                        {
+                            std::basic_ostringstream<CharT, Traits> os;
+                            os.imbue(is.getloc());
+                            tm = std::tm{};
+                            tm.tm_hour = 12 * i;
+                            std::use_facet<std::time_put<CharT>>(os.getloc())
+                                .put(os, os, os.fill(), &tm, 'p');
+                            nm[i] = os.str();
+                        }
+                        tp = static_cast<int>(detail::scan_keyword(is, nm, nm + 2) - nm);
 #else
                         auto nm = detail::ampm_names();
                         auto i = detail::scan_keyword(is, nm.first, nm.second) - nm.first;
-- 
2.43.0


From 9ceec6a58d2b76c20cebae81c2c954b1008e6c28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:30:26 +0000
Subject: [PATCH 38/50] fix: parsing %Y and %y (or %G and %g) together works
 for years -100, -200, ...

---
 include/gul14/date.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/gul14/date.h b/include/gul14/date.h
index b268371..8a250c4 100644
--- a/include/gul14/date.h
+++ b/include/gul14/date.h
@@ -7224,7 +7224,7 @@ from_stream(std::basic_istream<CharT, Traits>& is, const CharT* fmt,
                     }
                     else
                     {
-                        C = (Y >= 0 ? Y : Y-100) / 100;
+                        C = (Y >= 0 ? Y : Y-99) / 100;
                     }
                 }
                 int tY;
@@ -7252,7 +7252,7 @@ from_stream(std::basic_istream<CharT, Traits>& is, const CharT* fmt,
                     }
                     else
                     {
-                        C = (G >= 0 ? G : G-100) / 100;
+                        C = (G >= 0 ? G : G-99) / 100;
                     }
                 }
                 int tG;
-- 
2.43.0


From afa1277414200fece371da25c530fa097a355d59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:30:26 +0000
Subject: [PATCH 39/50] fix: parsing a date with %j rejects days beyond the end
 of the year

---
 include/gul14/date.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/gul14/date.h b/include/gul14/date.h
index 8a250c4..805f7bf 100644
--- a/include/gul14/date.h
+++ b/include/gul14/date.h
@@ -7326,6 +7326,8 @@ from_stream(std::basic_istream<CharT, Traits>& is, const CharT* fmt,
             }
             if (j != not_a_doy && Y != not_a_year)
             {
+                if (!(1 <= j && j <= (year{Y}.is_leap() ? 366 : 365)))
+                    goto broken;
                 auto ymd_trial = year_month_day{local_days(year{Y}/1/1) + days{j-1}};
                 if (m == not_a_month)
                     m = static_cast<int>(static_cast<unsigned>(ymd_trial.month()));
-- 
2.43.0


From efa1909c1f8171bcdcc98d01cecff71811280914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:30:26 +0000
Subject: [PATCH 40/50] fix: parsing a date with %V rejects weeks beyond the
 end of the ISO year

---
 include/gul14/date.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/gul14/date.h b/include/gul14/date.h
index 805f7bf..aa85e12 100644
--- a/include/gul14/date.h
+++ b/include/gul14/date.h
@@ -7269,6 +7269,10 @@ from_stream(std::basic_istream<CharT, Traits>& is, const CharT* fmt,
             bool computed = false;
             if (G != not_a_year && V != not_a_week_num && wd != not_a_weekday)
             {
+                if (!(1 <= V && V <= duration_cast<weeks>(
+                            sys_days(year{G}/December/Thursday[last]) -
+                            sys_days(year{G-1}/December/Thursday[last])).count()))
+                    goto broken;
                 year_month_day ymd_trial = sys_days(year{G-1}/December/Thursday[last]) +
                                            (Monday-Thursday) + weeks{V-1} +
                                            (weekday{static_cast<unsigned>(wd)}-Monday);
-- 
2.43.0


From a64eb836dfbb7ce4558a350c254367f500f9d933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:30:26 +0000
Subject: [PATCH 41/50] fix: parsing %H and %I together accepts hours in the
 afternoon

---
 include/gul14/date.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/gul14/date.h b/include/gul14/date.h
index aa85e12..354da35 100644
--- a/include/gul14/date.h
+++ b/include/gul14/date.h
@@ -7418,7 +7418,7 @@ from_stream(std::basic_istream<CharT, Traits>& is, const CharT* fmt,
                             if (H != 0 && H != 12)
                                 goto broken;
                         }
-                        else if (!(I == H || I == H+12))
+                        else if (!(H == I || H == I+12))
                         {
                             goto broken;
                         }
-- 
2.43.0


From db59b09d9568692b9f74096ad3d6c6e678a7a6ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:30:26 +0000
Subject: [PATCH 42/50] fix: parsing a year_month or month_day rejects invalid
 ones

---
 include/gul14/date.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/gul14/date.h b/include/gul14/date.h
index 354da35..5167570 100644
--- a/include/gul14/date.h
+++ b/include/gul14/date.h
@@ -7534,7 +7534,7 @@ from_stream(std::basic_istream<CharT, Traits>& is, const CharT* fmt, year_month&
     using CT = std::chrono::seconds;
     fields<CT> fds{};
     gul14::date::from_stream(is, fmt, fds, abbrev, offset);
-    if (!fds.ymd.month().ok())
+    if (!(fds.ymd.year()/fds.ymd.month()).ok())
         is.setstate(std::ios::failbit);
     if (!is.fail())
         ym = fds.ymd.year()/fds.ymd.month();
@@ -7550,7 +7550,7 @@ from_stream(std::basic_istream<CharT, Traits>& is, const CharT* fmt, month_day&
     using CT = std::chrono::seconds;
     fields<CT> fds{};
     gul14::date::from_stream(is, fmt, fds, abbrev, offset);
-    if (!fds.ymd.month().ok() || !fds.ymd.day().ok())
+    if (!(fds.ymd.month()/fds.ymd.day()).ok())
         is.setstate(std::ios::failbit);
     if (!is.fail())
         md = fds.ymd.month()/fds.ymd.day();
-- 
2.43.0


From 90f05d4e13d8d5747ce9d1ab16320e53d56f8db7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:33:16 +0000
Subject: [PATCH 43/50] fix: parsing months and days with more than two digits
 does not wrap around

---
 include/gul14/date.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/gul14/date.h b/include/gul14/date.h
index 5167570..7c68d81 100644
--- a/include/gul14/date.h
+++ b/include/gul14/date.h
@@ -7266,6 +7266,8 @@ from_stream(std::basic_istream<CharT, Traits>& is, const CharT* fmt,
             }
             if (Y < static_cast<int>(year::min()) || Y > static_cast<int>(year::max()))
                 Y = not_a_year;
+            if (!(0 <= m && m <= 12) || !(0 <= d && d <= 31))
+                goto broken;
             bool computed = false;
             if (G != not_a_year && V != not_a_week_num && wd != not_a_weekday)
             {
-- 
2.43.0


From bd060db3ad417594f583e489178fcbde00a21e03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:45:33 +0000
Subject: [PATCH 44/50] fix: is_invocable_r with a void result accepts any
 callable

---
 include/gul14/traits.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/gul14/traits.h b/include/gul14/traits.h
index f1b1103..4040dea 100644
--- a/include/gul14/traits.h
+++ b/include/gul14/traits.h
@@ -265,7 +265,8 @@ struct is_invocable_r<void_t<invoke_result_t<F, Args...>>,
                         R,
                         F,
                         Args...>
-    : std::is_convertible<invoke_result_t<F, Args...>, R> {};
+    : std::integral_constant<bool, std::is_void<R>::value ||
+                             std::is_convertible<invoke_result_t<F, Args...>, R>::value> {};
 
 } // namespace detail_invocable
 
-- 
2.43.0


From d6759a2922e24d86e09046da195d9f87ab946698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:45:33 +0000
Subject: [PATCH 45/50] fix: thread pool accepts mutable callables and
 reference results without pool argument

---
 include/gul14/ThreadPool.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/gul14/ThreadPool.h b/include/gul14/ThreadPool.h
index 920aa3e..8cef0f7 100644
--- a/include/gul14/ThreadPool.h
+++ b/include/gul14/ThreadPool.h
@@ -361,7 +361,7 @@ public:
     add_task(Function fct, TimePoint start_time = {}, std::string name = {})
     {
         return add_task(
-            [f = std::move(fct)](ThreadPool&) { return f(); },
+            [f = std::move(fct)](ThreadPool&) mutable -> decltype(auto) { return f(); },
             start_time, std::move(name));
     }
 
-- 
2.43.0


From bf3a40a9883afed3ee861508ea22828ea2bb2026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:45:49 +0000
Subject: [PATCH 46/50] fix: tasks with a very long delay do not start
 immediately

---
 include/gul14/ThreadPool.h | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/include/gul14/ThreadPool.h b/include/gul14/ThreadPool.h
index 8cef0f7..69884b9 100644
--- a/include/gul14/ThreadPool.h
+++ b/include/gul14/ThreadPool.h
@@ -371,7 +371,7 @@ public:
     add_task(Function fct, Duration delay_before_start, std::string name = {})
     {
         return add_task(std::move(fct),
-            std::chrono::system_clock::now() + delay_before_start, std::move(name));
+            get_start_time(delay_before_start), std::move(name));
     }
 
     template <typename Function,
@@ -380,7 +380,7 @@ public:
     add_task(Function fct, Duration delay_before_start, std::string name = {})
     {
         return add_task(std::move(fct),
-            std::chrono::system_clock::now() + delay_before_start, std::move(name));
+            get_start_time(delay_before_start), std::move(name));
     }
 
     template <typename Function,
@@ -587,6 +587,15 @@ private:
     GUL_EXPORT
     bool cancel_pending_task(TaskId task_id);
 
+    /**
+     * Return the point in time after the given delay, limited to the latest possible one.
+     */
+    static TimePoint get_start_time(Duration delay)
+    {
+        const auto now = std::chrono::system_clock::now();
+        return delay > TimePoint::max() - now ? TimePoint::max() : now + delay;
+    }
+
     /**
      * Determine the state of the task with the specified ID.
      *
-- 
2.43.0


From e0f54bbaea2f6f8a11f1825b819e6e30c8228fb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:45:49 +0000
Subject: [PATCH 47/50] fix: creating a thread pool throws instead of
 terminating if a thread cannot be started

---
 src/ThreadPool.cc | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/ThreadPool.cc b/src/ThreadPool.cc
index fb65bf4..6c7e487 100644
--- a/src/ThreadPool.cc
+++ b/src/ThreadPool.cc
@@ -61,8 +61,25 @@ ThreadPool::ThreadPool(std::size_t num_threads, std::size_t capacity)
         throw std::invalid_argument(cat("Illegal capacity for thread pool: ", capacity));
 
     threads_.reserve(num_threads);
-    while (threads_.size() < num_threads)
-        threads_.emplace_back([this]() { perform_work(); });
+    try
+    {
+        while (threads_.size() < num_threads)
+            threads_.emplace_back([this]() { perform_work(); });
+    }
+    catch (...)
+    {
+        // Stop the threads that have been started so far: The destructor is not called if
+        // the constructor throws.
+        std::unique_lock<std::mutex> lock(mutex_);
+        shutdown_requested_ = true;
+        lock.unlock();
+        cv_.notify_all();
+
+        for (auto& t : threads_)
+            t.join();
+
+        throw;
+    }
 }
 
 ThreadPool::~ThreadPool()
-- 
2.43.0


From d9046498268f4c58733f8780cd2e01fb659add75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:50:15 +0000
Subject: [PATCH 48/50] fix: waiting for a trigger for a very long time does
 not return immediately

---
 include/gul14/Trigger.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/gul14/Trigger.h b/include/gul14/Trigger.h
index 66770f9..f07a6be 100644
--- a/include/gul14/Trigger.h
+++ b/include/gul14/Trigger.h
@@ -189,6 +189,14 @@ public:
     bool wait_for(const std::chrono::duration<Rep, Period>& delta_t) const
     {
         std::unique_lock<std::mutex> lock(mutex_);
+
+        // Avoid an overflow in wait_for(): Consider centuries as "forever".
+        if (std::chrono::duration<double>(delta_t) > std::chrono::hours(24 * 365 * 200))
+        {
+            cv_.wait(lock, [this]{ return triggered_; });
+            return true;
+        }
+
         return cv_.wait_for(lock, delta_t, [this]{ return triggered_; });
     }
 
-- 
2.43.0


From 20dd44ea05cc78ee3022c7c8b7b32313bcdd0afb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:22:26 +0000
Subject: [PATCH 49/50] fix: SmallVector::assign(n, value) with an element of
 the same vector

The elements were destroyed before the value was copied.
---
 include/gul14/SmallVector.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/gul14/SmallVector.h b/include/gul14/SmallVector.h
index 4574446..d84bdfc 100644
--- a/include/gul14/SmallVector.h
+++ b/include/gul14/SmallVector.h
@@ -437,8 +437,11 @@ public:
      */
     void assign(SizeType num_elements, const ValueType& value)
     {
+        // Clearing invalidates references to elements of this vector
+        const ValueType new_value(value);
+
         clear();
-        fill_empty_vector_with_copied_value(num_elements, value);
+        fill_empty_vector_with_copied_value(num_elements, new_value);
     }
 
     /**
-- 
2.43.0


From 2eba0db89dbc723ec4e3c27012a9cd7f4a256abb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:38:16 +0000
Subject: [PATCH 50/50] fix: hexdump() is independent of digit grouping in the
 global locale

---
 include/gul14/hexdump.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/gul14/hexdump.h b/include/gul14/hexdump.h
index 94b4c8b..ef4bbb3 100644
--- a/include/gul14/hexdump.h
+++ b/include/gul14/hexdump.h
@@ -24,6 +24,7 @@
 #define GUL14_HEXDUMP_H_
 
 #include <iomanip>
+#include <locale>
 #include <sstream>
 #include <type_traits>
 #include <utility>
@@ -220,6 +221,7 @@ template<typename IteratorT,
 std::string hexdump(IteratorT begin, IteratorT end, string_view prompt = "")
 {
     std::stringstream o{ };
+    o.imbue(std::locale::classic()); // no digit grouping
     return detail::hexdump_stream(o, begin, end, prompt).str();
 }
 
@@ -237,6 +239,7 @@ template<typename ContainerT,
 std::string hexdump(const ContainerT& cont, string_view prompt = "")
 {
     std::stringstream o{ };
+    o.imbue(std::locale::classic()); // no digit grouping
     return detail::hexdump_stream(o, cont.cbegin(), cont.cend(), prompt).str();
 }
 
-- 
2.43.0

