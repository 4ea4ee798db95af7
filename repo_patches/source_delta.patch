From 380e925de45cde176cecfce42baa953efd3dd5e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:39 +0000
Subject: [PATCH 01/40] fix: refuse to cancel or kill a task that has already
 ended

---
 include/libcotask/task.h | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/include/libcotask/task.h b/include/libcotask/task.h
index 7b87efc..59636af 100755
--- a/include/libcotask/task.h
+++ b/include/libcotask/task.h
@@ -569,6 +569,11 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task : public impl::task_impl {
     EN_TASK_STATUS from_status = get_status();
 
     do {
+      // a task ends only once
+      if (from_status >= EN_TS_DONE) {
+        return LIBCOPP_COPP_NAMESPACE_ID::COPP_EC_ALREADY_FINISHED;
+      }
+
       if (EN_TS_RUNNING == from_status) {
         return LIBCOPP_COPP_NAMESPACE_ID::COPP_EC_IS_RUNNING;
       }
@@ -602,6 +607,11 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task : public impl::task_impl {
     EN_TASK_STATUS from_status = get_status();
 
     do {
+      // a task ends only once
+      if (from_status >= EN_TS_DONE) {
+        return LIBCOPP_COPP_NAMESPACE_ID::COPP_EC_ALREADY_FINISHED;
+      }
+
       COPP_LIKELY_IF (_cas_status(from_status, status)) {
         break;
       }
-- 
2.43.0


From 4e6a6aeb86d700afd55bd0780190e6de0d628369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:39 +0000
Subject: [PATCH 02/40] fix: drive an abandoned task to its end before its
 action is destroyed

---
 include/libcotask/task.h | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/include/libcotask/task.h b/include/libcotask/task.h
index 59636af..2e61377 100755
--- a/include/libcotask/task.h
+++ b/include/libcotask/task.h
@@ -794,6 +794,18 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task : public impl::task_impl {
 
     size_t left = --p->ref_count_;
     if (0 == left) {
+      // the action is used until the coroutine finished, so drive an abandoned task to its end before destroying it
+      EN_TASK_STATUS status = p->get_status();
+      if (status > EN_TS_CREATED && status < EN_TS_DONE) {
+        ++p->ref_count_;
+        p->kill(EN_TS_TIMEOUT);
+        left = --p->ref_count_;
+        if (0 != left) {
+          // somebody refers to it again
+          return;
+        }
+      }
+
       // save coroutine context first, make sure it's still available after destroy task
       using this_coroutine_type = typename task<TCO_MACRO>::coroutine_type;
       using this_coroutine_ptr_type = typename this_coroutine_type::ptr_type;
-- 
2.43.0


From 8c7ef022dd802dd92aab25aa96393bef81b03490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:39 +0000
Subject: [PATCH 03/40] fix: do not lose a task chained while its predecessor
 ends

---
 include/libcotask/task.h | 32 +++++++++++++++++---------------
 1 file changed, 17 insertions(+), 15 deletions(-)

diff --git a/include/libcotask/task.h b/include/libcotask/task.h
index 2e61377..433af83 100755
--- a/include/libcotask/task.h
+++ b/include/libcotask/task.h
@@ -234,24 +234,26 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task : public impl::task_impl {
       return ptr_type(this);
     }
 
-    // can not add next task when finished
-    if (is_exiting() || is_completed()) {
-      // run next task immedialy
-      EN_TASK_STATUS next_task_status = next_task->get_status();
-      if (EN_TS_CREATED == next_task_status) {
-        next_task->start(priv_data);
-      } else if (EN_TS_WAITING == next_task_status) {
-        next_task->resume(priv_data);
-      }
-      return next_task;
-    }
-
+    {
 #if !defined(LIBCOPP_DISABLE_ATOMIC_LOCK) || !(LIBCOPP_DISABLE_ATOMIC_LOCK)
-    LIBCOPP_COPP_NAMESPACE_ID::util::lock::lock_holder<LIBCOPP_COPP_NAMESPACE_ID::util::lock::spin_lock> lock_guard(
-        inner_action_lock_);
+      LIBCOPP_COPP_NAMESPACE_ID::util::lock::lock_holder<LIBCOPP_COPP_NAMESPACE_ID::util::lock::spin_lock> lock_guard(
+          inner_action_lock_);
 #endif
 
-    next_list_.member_list_.push_back(std::make_pair(next_task, priv_data));
+      // the next list is taken under the same lock after the status is final, so nothing can be added too late
+      if (!is_exiting() && !is_completed()) {
+        next_list_.member_list_.push_back(std::make_pair(next_task, priv_data));
+        return next_task;
+      }
+    }
+
+    // can not add next task when finished, run next task immedialy
+    EN_TASK_STATUS next_task_status = next_task->get_status();
+    if (EN_TS_CREATED == next_task_status) {
+      next_task->start(priv_data);
+    } else if (EN_TS_WAITING == next_task_status) {
+      next_task->resume(priv_data);
+    }
     return next_task;
   }
 
-- 
2.43.0


From 8de9e1a1443ee798d2fba2bf4c306d3a1877fe35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:39 +0000
Subject: [PATCH 04/40] fix: unbind tasks from a manager that forgets them

---
 include/libcotask/task.h         | 17 +++++++++++------
 include/libcotask/task_manager.h | 29 ++++++++++++++++++++---------
 2 files changed, 31 insertions(+), 15 deletions(-)

diff --git a/include/libcotask/task.h b/include/libcotask/task.h
index 433af83..92dcab6 100755
--- a/include/libcotask/task.h
+++ b/include/libcotask/task.h
@@ -706,12 +706,6 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task : public impl::task_impl {
           inner_action_lock_);
 #endif
       next_list.swap(next_list_.member_list_);
-#if defined(LIBCOTASK_MACRO_AUTO_CLEANUP_MANAGER) && LIBCOTASK_MACRO_AUTO_CLEANUP_MANAGER
-      manager_ptr = binding_manager_ptr_;
-      manager_fn = binding_manager_fn_;
-      binding_manager_ptr_ = nullptr;
-      binding_manager_fn_ = nullptr;
-#endif
     }
 
     // then, do all the pending tasks
@@ -742,6 +736,17 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task : public impl::task_impl {
 
     // finally, notify manager to cleanup(maybe start or resume with task's API but not task_manager's)
 #if defined(LIBCOTASK_MACRO_AUTO_CLEANUP_MANAGER) && LIBCOTASK_MACRO_AUTO_CLEANUP_MANAGER
+    {
+#  if !defined(LIBCOPP_DISABLE_ATOMIC_LOCK) || !(LIBCOPP_DISABLE_ATOMIC_LOCK)
+      LIBCOPP_COPP_NAMESPACE_ID::util::lock::lock_holder<LIBCOPP_COPP_NAMESPACE_ID::util::lock::spin_lock> lock_guard(
+          inner_action_lock_);
+#  endif
+      // the manager may have been reset or destroyed by the tasks above
+      manager_ptr = binding_manager_ptr_;
+      manager_fn = binding_manager_fn_;
+      binding_manager_ptr_ = nullptr;
+      binding_manager_fn_ = nullptr;
+    }
     if (nullptr != manager_ptr && nullptr != manager_fn) {
       (*manager_fn)(manager_ptr, *this);
     }
diff --git a/include/libcotask/task_manager.h b/include/libcotask/task_manager.h
index a7dc903..18710be 100755
--- a/include/libcotask/task_manager.h
+++ b/include/libcotask/task_manager.h
@@ -242,6 +242,12 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task_manager<task<TCO_MACRO>> {
 
     // then, kill all tasks
     for (typename std::vector<task_ptr_type>::iterator iter = all_tasks.begin(); iter != all_tasks.end(); ++iter) {
+#if defined(LIBCOTASK_MACRO_AUTO_CLEANUP_MANAGER) && LIBCOTASK_MACRO_AUTO_CLEANUP_MANAGER
+      using task_manager_helper = typename task_type::task_manager_helper;
+      task_manager_helper::cleanup_task_manager(**iter, reinterpret_cast<void *>(this));
+#endif
+    }
+    for (typename std::vector<task_ptr_type>::iterator iter = all_tasks.begin(); iter != all_tasks.end(); ++iter) {
       if (!(*iter)->is_exiting()) {
         (*iter)->kill(EN_TS_KILLED);
       }
@@ -759,13 +765,15 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task_manager<task<TCO_MACRO>> {
         }
       }
 
-      // task call can not be used when lock is on
-      if (task_inst && !task_inst->is_exiting()) {
 #if defined(LIBCOTASK_MACRO_AUTO_CLEANUP_MANAGER) && LIBCOTASK_MACRO_AUTO_CLEANUP_MANAGER
+      if (task_inst) {
         using task_manager_helper = typename task_type::task_manager_helper;
         // already cleanup, there is no need to cleanup again
         task_manager_helper::cleanup_task_manager(*task_inst, reinterpret_cast<void *>(this));
+      }
 #endif
+      // task call can not be used when lock is on
+      if (task_inst && !task_inst->is_exiting()) {
 #if defined(LIBCOPP_MACRO_ENABLE_STD_EXCEPTION_PTR) && LIBCOPP_MACRO_ENABLE_STD_EXCEPTION_PTR
         task_inst->kill(eptrs, EN_TS_TIMEOUT, nullptr);
 #else
@@ -946,13 +954,14 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task_manager<task_future<TVALUE, TPRIVATE_DAT
 
     // then, kill all tasks
     for (typename std::vector<task_type>::iterator iter = all_tasks.begin(); iter != all_tasks.end(); ++iter) {
-      if (!(*iter).is_exiting()) {
 #  if defined(LIBCOTASK_MACRO_AUTO_CLEANUP_MANAGER) && LIBCOTASK_MACRO_AUTO_CLEANUP_MANAGER
-        using task_manager_helper = typename task_type::task_manager_helper;
-        // already cleanup, there is no need to cleanup again
-        task_manager_helper::cleanup_task_manager(*(*iter).get_context(), reinterpret_cast<void *>(this));
+      using task_manager_helper = typename task_type::task_manager_helper;
+      // already cleanup, there is no need to cleanup again
+      task_manager_helper::cleanup_task_manager(*(*iter).get_context(), reinterpret_cast<void *>(this));
 #  endif
-
+    }
+    for (typename std::vector<task_type>::iterator iter = all_tasks.begin(); iter != all_tasks.end(); ++iter) {
+      if (!(*iter).is_exiting()) {
         (*iter).kill(task_status_type::kKilled);
       }
     }
@@ -1364,13 +1373,15 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task_manager<task_future<TVALUE, TPRIVATE_DAT
         }
       }
 
-      // task call can not be used when lock is on
-      if (!task_inst.is_exiting()) {
 #  if defined(LIBCOTASK_MACRO_AUTO_CLEANUP_MANAGER) && LIBCOTASK_MACRO_AUTO_CLEANUP_MANAGER
+      if (task_inst.get_context()) {
         using task_manager_helper = typename task_type::task_manager_helper;
         // already cleanup, there is no need to cleanup again
         task_manager_helper::cleanup_task_manager(*task_inst.get_context(), reinterpret_cast<void *>(this));
+      }
 #  endif
+      // task call can not be used when lock is on
+      if (task_inst.get_context() && !task_inst.is_exiting()) {
         task_inst.kill(task_status_type::kTimeout);
       }
     }
-- 
2.43.0


From 96385afc759d85759ef91df3ddcfb928f4f4c781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:39 +0000
Subject: [PATCH 05/40] fix: keep the reset flag of a task manager until the
 reset is complete

---
 include/libcotask/task_manager.h | 2 --
 1 file changed, 2 deletions(-)

diff --git a/include/libcotask/task_manager.h b/include/libcotask/task_manager.h
index 18710be..04c9015 100755
--- a/include/libcotask/task_manager.h
+++ b/include/libcotask/task_manager.h
@@ -235,7 +235,6 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task_manager<task<TCO_MACRO>> {
 
       tasks_.clear();
       task_timeout_timer_.clear();
-      flags_ = 0;
       last_tick_time_.tv_sec = 0;
       last_tick_time_.tv_nsec = 0;
     }
@@ -947,7 +946,6 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task_manager<task_future<TVALUE, TPRIVATE_DAT
 
       tasks_.clear();
       task_timeout_timer_.clear();
-      flags_ = 0;
       last_tick_time_.tv_sec = 0;
       last_tick_time_.tv_nsec = 0;
     }
-- 
2.43.0


From e05db0cb5377189090857b69020e29167735a88b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:39 +0000
Subject: [PATCH 06/40] fix: carry nanoseconds when computing task deadlines

---
 include/libcotask/task_manager.h | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/include/libcotask/task_manager.h b/include/libcotask/task_manager.h
index 04c9015..78ddf67 100755
--- a/include/libcotask/task_manager.h
+++ b/include/libcotask/task_manager.h
@@ -70,6 +70,13 @@ struct LIBCOPP_COTASK_API_HEAD_ONLY tickspec_t {
 #endif
 };
 
+// add a non-negative duration and keep tv_nsec in the range 0-999999999, the comparison above depends on it
+LIBCOPP_COTASK_API_HEAD_ONLY inline void tickspec_add(tickspec_t &t, time_t sec, int64_t nsec) noexcept {
+  nsec += static_cast<int64_t>(t.tv_nsec);
+  t.tv_sec += sec + static_cast<time_t>(nsec / 1000000000);
+  t.tv_nsec = static_cast<decltype(t.tv_nsec)>(nsec % 1000000000);
+}
+
 template <class TTASK_ID_TYPE>
 struct LIBCOPP_COTASK_API_HEAD_ONLY task_timer_node {
   tickspec_t expired_time;
@@ -709,8 +716,7 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task_manager<task<TCO_MACRO>> {
       for (typename std::set<detail::task_timer_node<id_type>>::iterator iter = task_timeout_timer_.begin();
            task_timeout_timer_.end() != iter; ++iter) {
         detail::task_timer_node<id_type> new_checkpoint = (*iter);
-        new_checkpoint.expired_time.tv_sec += sec;
-        new_checkpoint.expired_time.tv_nsec += nsec;
+        detail::tickspec_add(new_checkpoint.expired_time, sec, nsec);
         real_checkpoints.insert(new_checkpoint);
       }
 
@@ -835,8 +841,8 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task_manager<task<TCO_MACRO>> {
 
     detail::task_timer_node<id_type> timer_node;
     timer_node.task_id = node.task_->get_id();
-    timer_node.expired_time.tv_sec = last_tick_time_.tv_sec + timeout_sec;
-    timer_node.expired_time.tv_nsec = last_tick_time_.tv_nsec + timeout_nsec;
+    timer_node.expired_time = last_tick_time_;
+    detail::tickspec_add(timer_node.expired_time, timeout_sec, timeout_nsec);
 
     std::pair<typename std::set<detail::task_timer_node<id_type>>::iterator, bool> res =
         task_timeout_timer_.insert(timer_node);
@@ -1319,8 +1325,7 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task_manager<task_future<TVALUE, TPRIVATE_DAT
       for (typename std::set<detail::task_timer_node<id_type>>::iterator iter = task_timeout_timer_.begin();
            task_timeout_timer_.end() != iter; ++iter) {
         detail::task_timer_node<id_type> new_checkpoint = (*iter);
-        new_checkpoint.expired_time.tv_sec += sec;
-        new_checkpoint.expired_time.tv_nsec += nsec;
+        detail::tickspec_add(new_checkpoint.expired_time, sec, nsec);
         real_checkpoints.insert(new_checkpoint);
       }
 
@@ -1434,8 +1439,8 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task_manager<task_future<TVALUE, TPRIVATE_DAT
 
     detail::task_timer_node<id_type> timer_node;
     timer_node.task_id = node.task_.get_id();
-    timer_node.expired_time.tv_sec = last_tick_time_.tv_sec + timeout_sec;
-    timer_node.expired_time.tv_nsec = last_tick_time_.tv_nsec + timeout_nsec;
+    timer_node.expired_time = last_tick_time_;
+    detail::tickspec_add(timer_node.expired_time, timeout_sec, timeout_nsec);
 
     std::pair<typename std::set<detail::task_timer_node<id_type>>::iterator, bool> res =
         task_timeout_timer_.insert(timer_node);
-- 
2.43.0


From 824a29fc3b1885146a3975afb763daad77b7c0c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:39 +0000
Subject: [PATCH 07/40] fix: keep a running task in its manager when cancelling
 it is refused

---
 include/libcotask/task_manager.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/libcotask/task_manager.h b/include/libcotask/task_manager.h
index 78ddf67..9d4f852 100755
--- a/include/libcotask/task_manager.h
+++ b/include/libcotask/task_manager.h
@@ -598,6 +598,11 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task_manager<task<TCO_MACRO>> {
         return LIBCOPP_COPP_NAMESPACE_ID::COPP_EC_NOT_FOUND;
       }
 
+      // a running task can not be canceled and stays in the manager
+      if (iter->second.task_ && EN_TS_RUNNING == iter->second.task_->get_status()) {
+        return LIBCOPP_COPP_NAMESPACE_ID::COPP_EC_IS_RUNNING;
+      }
+
       task_inst = std::move(iter->second.task_);
 
       remove_timeout_timer(iter->second);
-- 
2.43.0


From 60378162b8045cd8d2e7ac4ad16565d1d8986abb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:39 +0000
Subject: [PATCH 08/40] fix: kill every task of a reset manager even if one of
 them throws

---
 include/libcotask/task_manager.h | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/include/libcotask/task_manager.h b/include/libcotask/task_manager.h
index 9d4f852..d44d31e 100755
--- a/include/libcotask/task_manager.h
+++ b/include/libcotask/task_manager.h
@@ -247,6 +247,9 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task_manager<task<TCO_MACRO>> {
     }
 
     // then, kill all tasks
+#if defined(LIBCOPP_MACRO_ENABLE_STD_EXCEPTION_PTR) && LIBCOPP_MACRO_ENABLE_STD_EXCEPTION_PTR
+    std::list<std::exception_ptr> eptrs;
+#endif
     for (typename std::vector<task_ptr_type>::iterator iter = all_tasks.begin(); iter != all_tasks.end(); ++iter) {
 #if defined(LIBCOTASK_MACRO_AUTO_CLEANUP_MANAGER) && LIBCOTASK_MACRO_AUTO_CLEANUP_MANAGER
       using task_manager_helper = typename task_type::task_manager_helper;
@@ -255,9 +258,17 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task_manager<task<TCO_MACRO>> {
     }
     for (typename std::vector<task_ptr_type>::iterator iter = all_tasks.begin(); iter != all_tasks.end(); ++iter) {
       if (!(*iter)->is_exiting()) {
+#if defined(LIBCOPP_MACRO_ENABLE_STD_EXCEPTION_PTR) && LIBCOPP_MACRO_ENABLE_STD_EXCEPTION_PTR
+        (*iter)->kill(eptrs, EN_TS_KILLED, nullptr);
+#else
         (*iter)->kill(EN_TS_KILLED);
+#endif
       }
     }
+
+#if defined(LIBCOPP_MACRO_ENABLE_STD_EXCEPTION_PTR) && LIBCOPP_MACRO_ENABLE_STD_EXCEPTION_PTR
+    task_type::maybe_rethrow(eptrs);
+#endif
   }
 
   /**
-- 
2.43.0


From 3d12a93a379fd093277163a52fa41cc3cbc6a002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:39 +0000
Subject: [PATCH 09/40] fix: return success after removing a running C++20 task
 from its manager

---
 include/libcotask/task_manager.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/libcotask/task_manager.h b/include/libcotask/task_manager.h
index d44d31e..2dd8eb5 100755
--- a/include/libcotask/task_manager.h
+++ b/include/libcotask/task_manager.h
@@ -1159,7 +1159,7 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task_manager<task_future<TVALUE, TPRIVATE_DAT
 
       task_status_type task_status = task_inst.get_status();
       if (task_status > task_status_type::kCreated && task_status < task_status_type::kDone) {
-        return task_inst.kill(task_status_type::kKilled);
+        task_inst.kill(task_status_type::kKilled);
       }
     }
 
-- 
2.43.0


From 4979eaa284146ac74adb6d722f873ce17a009c82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:40 +0000
Subject: [PATCH 10/40] fix: publish the data of a kill together with the
 killed status

---
 include/libcotask/task.h | 41 ++++++++++++++++++++++++++++------------
 1 file changed, 29 insertions(+), 12 deletions(-)

diff --git a/include/libcotask/task.h b/include/libcotask/task.h
index 92dcab6..d8541f5 100755
--- a/include/libcotask/task.h
+++ b/include/libcotask/task.h
@@ -515,10 +515,18 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task : public impl::task_impl {
 
     while (true) {
       if (from_status >= EN_TS_DONE) {  // canceled or killed
+        void *finish_priv_data;
+        {
+#if !defined(LIBCOPP_DISABLE_ATOMIC_LOCK) || !(LIBCOPP_DISABLE_ATOMIC_LOCK)
+          LIBCOPP_COPP_NAMESPACE_ID::util::lock::lock_holder<LIBCOPP_COPP_NAMESPACE_ID::util::lock::spin_lock>
+              lock_guard(inner_action_lock_);
+#endif
+          finish_priv_data = finish_priv_data_;
+        }
 #if defined(LIBCOPP_MACRO_ENABLE_STD_EXCEPTION_PTR) && LIBCOPP_MACRO_ENABLE_STD_EXCEPTION_PTR
-        _notify_finished(unhandled, finish_priv_data_);
+        _notify_finished(unhandled, finish_priv_data);
 #else
-        _notify_finished(finish_priv_data_);
+        _notify_finished(finish_priv_data);
 #endif
         break;
       }
@@ -608,16 +616,27 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task : public impl::task_impl {
 #endif
     EN_TASK_STATUS from_status = get_status();
 
-    do {
-      // a task ends only once
-      if (from_status >= EN_TS_DONE) {
-        return LIBCOPP_COPP_NAMESPACE_ID::COPP_EC_ALREADY_FINISHED;
-      }
+    {
+#if !defined(LIBCOPP_DISABLE_ATOMIC_LOCK) || !(LIBCOPP_DISABLE_ATOMIC_LOCK)
+      // whoever runs this task must not see the status without the data
+      LIBCOPP_COPP_NAMESPACE_ID::util::lock::lock_holder<LIBCOPP_COPP_NAMESPACE_ID::util::lock::spin_lock> lock_guard(
+          inner_action_lock_);
+#endif
+      do {
+        // a task ends only once
+        if (from_status >= EN_TS_DONE) {
+          return LIBCOPP_COPP_NAMESPACE_ID::COPP_EC_ALREADY_FINISHED;
+        }
 
-      COPP_LIKELY_IF (_cas_status(from_status, status)) {
-        break;
+        COPP_LIKELY_IF (_cas_status(from_status, status)) {
+          break;
+        }
+      } while (true);
+
+      if (EN_TS_RUNNING == from_status) {
+        finish_priv_data_ = priv_data;
       }
-    } while (true);
+    }
 
     if (EN_TS_RUNNING != from_status) {
 #if defined(LIBCOPP_MACRO_ENABLE_STD_EXCEPTION_PTR) && LIBCOPP_MACRO_ENABLE_STD_EXCEPTION_PTR
@@ -625,8 +644,6 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task : public impl::task_impl {
 #else
       _notify_finished(priv_data);
 #endif
-    } else {
-      finish_priv_data_ = priv_data;
     }
 
     return LIBCOPP_COPP_NAMESPACE_ID::COPP_EC_SUCCESS;
-- 
2.43.0


From e99199f333f7afea93dc0f665ce1d37095df8311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:40 +0000
Subject: [PATCH 11/40] fix: return the created task from then() when there is
 no coroutine

---
 include/libcotask/task.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/libcotask/task.h b/include/libcotask/task.h
index d8541f5..81276f8 100755
--- a/include/libcotask/task.h
+++ b/include/libcotask/task.h
@@ -389,7 +389,7 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task : public impl::task_impl {
   template <typename Ty>
   inline ptr_type then(Ty &&functor, void *priv_data = nullptr) {
     if (!coroutine_obj_) {
-      then(create(std::forward<Ty>(functor), stack_size_, get_private_buffer_size()), priv_data);
+      return then(create(std::forward<Ty>(functor), stack_size_, get_private_buffer_size()), priv_data);
     }
 
     return then(
-- 
2.43.0


From 96145b030c81ed64e2532682992cd6bdd59f14bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:25 +0000
Subject: [PATCH 12/40] fix: unregister waiters that end while others are being
 resumed, and give each its value

---
 .../libcopp/coroutine/std_coroutine_common.h  |  5 +
 .../coroutine/std_coroutine_common.cpp        | 94 ++++++++++++++-----
 2 files changed, 74 insertions(+), 25 deletions(-)

diff --git a/include/libcopp/coroutine/std_coroutine_common.h b/include/libcopp/coroutine/std_coroutine_common.h
index 8f86aca..0e0a0dd 100644
--- a/include/libcopp/coroutine/std_coroutine_common.h
+++ b/include/libcopp/coroutine/std_coroutine_common.h
@@ -183,6 +183,11 @@ class promise_caller_manager {
   };
 
   using multi_caller_set = std::unordered_set<handle_delegate, handle_delegate_hash>;
+
+  // Callers which are still to be resumed by a running resume_callers()
+  struct resuming_callers;
+  resuming_callers *resuming_callers_;
+
 #  if defined(LIBCOPP_MACRO_ENABLE_STD_VARIANT) && LIBCOPP_MACRO_ENABLE_STD_VARIANT
   std::variant<handle_delegate, multi_caller_set> callers_;
 #  else
diff --git a/src/libcopp/coroutine/std_coroutine_common.cpp b/src/libcopp/coroutine/std_coroutine_common.cpp
index b08f415..f778e93 100644
--- a/src/libcopp/coroutine/std_coroutine_common.cpp
+++ b/src/libcopp/coroutine/std_coroutine_common.cpp
@@ -17,8 +17,47 @@
 
 LIBCOPP_COPP_NAMESPACE_BEGIN
 
+struct promise_caller_manager::resuming_callers {
+  promise_caller_manager *owner;  // nullptr when the owner is destroyed by one of the resumed callers
+  resuming_callers *previous;
+  multi_caller_set callers;
+
+  explicit resuming_callers(promise_caller_manager &input) : owner(&input), previous(input.resuming_callers_) {
+    input.resuming_callers_ = this;
+  }
+
+  ~resuming_callers() {
+    if (nullptr == owner) {
+      return;
+    }
+
+    resuming_callers **link = &owner->resuming_callers_;
+    while (nullptr != *link && this != *link) {
+      link = &(*link)->previous;
+    }
+    if (nullptr != *link) {
+      *link = previous;
+    }
+  }
+
+  // The resumed callers may remove others from the set, so always pick the first one again.
+  size_t resume_all() {
+    size_t resume_count = 0;
+    while (!callers.empty()) {
+      handle_delegate caller = *callers.begin();
+      callers.erase(callers.begin());
+      if (caller.handle && !caller.handle.done() &&
+          (nullptr == caller.promise || !caller.promise->check_flag(promise_flag::kDestroying))) {
+        caller.handle.resume();
+        ++resume_count;
+      }
+    }
+    return resume_count;
+  }
+};
+
 LIBCOPP_COPP_API promise_caller_manager::promise_caller_manager()
-    :
+    : resuming_callers_(nullptr),
 #  if defined(LIBCOPP_MACRO_ENABLE_STD_VARIANT) && LIBCOPP_MACRO_ENABLE_STD_VARIANT
       callers_(handle_delegate{nullptr})
 #  else
@@ -27,7 +66,11 @@ LIBCOPP_COPP_API promise_caller_manager::promise_caller_manager()
 {
 }
 
-LIBCOPP_COPP_API promise_caller_manager::~promise_caller_manager() {}
+LIBCOPP_COPP_API promise_caller_manager::~promise_caller_manager() {
+  for (resuming_callers *resuming = resuming_callers_; nullptr != resuming; resuming = resuming->previous) {
+    resuming->owner = nullptr;
+  }
+}
 
 LIBCOPP_COPP_API void promise_caller_manager::add_caller(handle_delegate delegate) noexcept {
   if (!delegate.handle || delegate.handle.done()) {
@@ -89,6 +132,12 @@ LIBCOPP_COPP_API bool promise_caller_manager::remove_caller(handle_delegate dele
 #  endif
   } while (false);
 
+  for (resuming_callers *resuming = resuming_callers_; nullptr != resuming; resuming = resuming->previous) {
+    if (resuming->callers.erase(delegate) > 0) {
+      has_caller = true;
+    }
+  }
+
   return has_caller;
 }
 
@@ -104,45 +153,40 @@ LIBCOPP_COPP_API size_t promise_caller_manager::resume_callers() {
       ++resume_count;
     }
   } else if (std::holds_alternative<multi_caller_set>(callers_)) {
-    multi_caller_set callers;
-    callers.swap(std::get<multi_caller_set>(callers_));
-    for (auto &caller : callers) {
-      if (caller.handle && !caller.handle.done() &&
-          (nullptr == caller.promise || !caller.promise->check_flag(promise_flag::kDestroying))) {
-        type_erased_handle_type handle = caller.handle;
-        handle.resume();
-        ++resume_count;
-      }
-    }
+    // The promise object may be destroyed after any caller.resume()
+    resuming_callers resuming{*this};
+    resuming.callers.swap(std::get<multi_caller_set>(callers_));
+    resume_count += resuming.resume_all();
   }
 #  else
   auto unique_caller = unique_caller_;
   unique_caller_ = nullptr;
-  std::unique_ptr<multi_caller_set> multiple_callers;
-  multiple_callers.swap(multiple_callers_);
+  // The promise object may be destroyed after any caller.resume()
+  resuming_callers resuming{*this};
+  if (multiple_callers_) {
+    resuming.callers.swap(*multiple_callers_);
+    multiple_callers_.reset();
+  }
 
-  // The promise object may be destroyed after first caller.resume()
   if (unique_caller.handle && !unique_caller.handle.done() &&
       (nullptr == unique_caller.promise || !unique_caller.promise->check_flag(promise_flag::kDestroying))) {
     unique_caller.handle.resume();
     ++resume_count;
   }
 
-  if (multiple_callers) {
-    for (auto &caller : *multiple_callers) {
-      if (caller.handle && !caller.handle.done() &&
-          (nullptr == caller.promise || !caller.promise->check_flag(promise_flag::kDestroying))) {
-        type_erased_handle_type handle = caller.handle;
-        handle.resume();
-        ++resume_count;
-      }
-    }
-  }
+  resume_count += resuming.resume_all();
 #  endif
   return resume_count;
 }
 
 LIBCOPP_COPP_API bool promise_caller_manager::has_multiple_callers() const noexcept {
+  // Others are going to be resumed after the current one
+  for (const resuming_callers *resuming = resuming_callers_; nullptr != resuming; resuming = resuming->previous) {
+    if (!resuming->callers.empty()) {
+      return true;
+    }
+  }
+
 #  if defined(LIBCOPP_MACRO_ENABLE_STD_VARIANT) && LIBCOPP_MACRO_ENABLE_STD_VARIANT
   if (std::holds_alternative<handle_delegate>(callers_)) {
     return false;
-- 
2.43.0


From 54a20c4ed0855c9910844c2706de1abd9deb27d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:52 +0000
Subject: [PATCH 13/40] fix: do not resume a running coroutine when its
 waiter's waiter is ended

---
 src/libcopp/coroutine/std_coroutine_common.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/libcopp/coroutine/std_coroutine_common.cpp b/src/libcopp/coroutine/std_coroutine_common.cpp
index f778e93..eda4f0c 100644
--- a/src/libcopp/coroutine/std_coroutine_common.cpp
+++ b/src/libcopp/coroutine/std_coroutine_common.cpp
@@ -251,7 +251,10 @@ LIBCOPP_COPP_API void promise_base_type::resume_waiting(handle_delegate current_
     if (nullptr != waiting_delegate.promise) {
       waiting_delegate.promise->remove_caller(current_delegate, inherit_status);
     }
-    waiting_delegate.handle.resume();
+    // The waiting coroutine may be running now, it must not be resumed again until it's suspended.
+    if (nullptr == waiting_delegate.promise || waiting_delegate.promise->is_waiting()) {
+      waiting_delegate.handle.resume();
+    }
   } else if (current_delegate.handle && !current_delegate.handle.done() &&
              check_flag(promise_flag::kInternalWaitting)) {
     // If we are waiting for a internal awaitable object, we also allow to resume it.
-- 
2.43.0


From 53af3bd294ff4df97dd44c159c068f95d40acb31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:52 +0000
Subject: [PATCH 14/40] fix: awaiting a value that never came ends with an
 error value also when killed with kDone

---
 include/libcopp/coroutine/generator_promise.h | 2 +-
 include/libcotask/task_promise.h              | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/libcopp/coroutine/generator_promise.h b/include/libcopp/coroutine/generator_promise.h
index 75db8e8..bf7aa41 100644
--- a/include/libcopp/coroutine/generator_promise.h
+++ b/include/libcopp/coroutine/generator_promise.h
@@ -449,7 +449,7 @@ class LIBCOPP_COPP_API_HEAD_ONLY generator_awaitable<TCONTEXT, false> : public g
     }
     promise_status result_status = detach();
 
-    if (promise_status::kDone != result_status) {
+    if (promise_status::kDone != result_status || (nullptr != get_context() && !get_context()->is_ready())) {
       return error_transform()(result_status);
     }
 
diff --git a/include/libcotask/task_promise.h b/include/libcotask/task_promise.h
index c407ca4..7229cb2 100644
--- a/include/libcotask/task_promise.h
+++ b/include/libcotask/task_promise.h
@@ -725,7 +725,7 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task_awaitable<TCONTEXT, false> : public task
     }
     task_status_type result_status = detach();
 
-    if (task_status_type::kDone != result_status) {
+    if (task_status_type::kDone != result_status || (nullptr != get_context() && !get_context()->is_ready())) {
       return error_transform()(result_status);
     }
 
-- 
2.43.0


From 57fc3be3000e78f3ac10081652be839a07e79a28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:01 +0000
Subject: [PATCH 15/40] fix: count the futures that are already ready when
 clamping the number some() waits for

---
 include/libcopp/coroutine/callable_promise.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/libcopp/coroutine/callable_promise.h b/include/libcopp/coroutine/callable_promise.h
index 88e72f1..861960b 100644
--- a/include/libcopp/coroutine/callable_promise.h
+++ b/include/libcopp/coroutine/callable_promise.h
@@ -625,8 +625,8 @@ class LIBCOPP_COPP_API_HEAD_ONLY some_delegate_base {
       co_return promise_status::kDone;
     }
 
-    if (ready_count >= context.pending.size() + ready_futures.size()) {
-      ready_count = context.pending.size() + ready_futures.size();
+    if (ready_count >= context.pending.size() + context.ready.size()) {
+      ready_count = context.pending.size() + context.ready.size();
     }
     context.ready_bound = ready_count;
     context.scan_bound = context.ready.size();
-- 
2.43.0


From 39a706068ce0c3d9ab4039de5d96e0ff6d3fb9c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:32 +0000
Subject: [PATCH 16/40] fix: move assignment of callable_future destroys the
 coroutine it replaces

---
 include/libcopp/coroutine/callable_promise.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/libcopp/coroutine/callable_promise.h b/include/libcopp/coroutine/callable_promise.h
index 861960b..56977e1 100644
--- a/include/libcopp/coroutine/callable_promise.h
+++ b/include/libcopp/coroutine/callable_promise.h
@@ -9,6 +9,7 @@
 // clang-format on
 #include <cstdlib>
 #include <type_traits>
+#include <utility>
 // clang-format off
 #include <libcopp/utils/config/stl_include_suffix.h>  // NOLINT(build/include_order)
 // clang-format on
@@ -317,8 +318,9 @@ class LIBCOPP_COPP_API_HEAD_ONLY callable_future {
 
   callable_future& operator=(const callable_future&) = delete;
   callable_future& operator=(callable_future&& other) noexcept {
-    current_handle_ = other.current_handle_;
-    other.current_handle_ = nullptr;
+    // The previous coroutine is finished and destroyed with the temporary object
+    callable_future previous{std::move(other)};
+    std::swap(current_handle_, previous.current_handle_);
     return *this;
   }
 
-- 
2.43.0


From 592607f7b9003f147f38b5d61e92e10fd66e77f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:41 +0000
Subject: [PATCH 17/40] fix: stack_pool::clear() forgets the stacks it gave
 back

---
 include/libcopp/stack/stack_pool.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/libcopp/stack/stack_pool.h b/include/libcopp/stack/stack_pool.h
index 374d1b8..4283200 100755
--- a/include/libcopp/stack/stack_pool.h
+++ b/include/libcopp/stack/stack_pool.h
@@ -301,6 +301,7 @@ class LIBCOPP_COPP_API_HEAD_ONLY stack_pool {
     for (typename std::list<stack_context>::iterator iter = free_list_.begin(); iter != free_list_.end(); ++iter) {
       alloc_.deallocate(*iter);
     }
+    free_list_.clear();
 
     LIBCOPP_UTIL_LOCK_ATOMIC_THREAD_FENCE(LIBCOPP_COPP_NAMESPACE_ID::util::lock::memory_order_release);
   }
-- 
2.43.0


From 27f4d12fa6404422a6fb7726bbc845871d263d97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:51 +0000
Subject: [PATCH 18/40] fix: stack_pool resizes and decides about collection
 under its lock

---
 include/libcopp/stack/stack_pool.h | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/include/libcopp/stack/stack_pool.h b/include/libcopp/stack/stack_pool.h
index 4283200..f48326a 100755
--- a/include/libcopp/stack/stack_pool.h
+++ b/include/libcopp/stack/stack_pool.h
@@ -81,8 +81,13 @@ class LIBCOPP_COPP_API_HEAD_ONLY stack_pool {
       sz = LIBCOPP_COPP_NAMESPACE_ID::stack_traits::round_to_page_size(sz);
     }
 
+#if !defined(LIBCOPP_DISABLE_ATOMIC_LOCK) || !(LIBCOPP_DISABLE_ATOMIC_LOCK)
+    LIBCOPP_COPP_NAMESPACE_ID::util::lock::lock_holder<LIBCOPP_COPP_NAMESPACE_ID::util::lock::spin_lock> lock_guard(
+        action_lock_);
+#endif
+
     if (sz != conf_.stack_size) {
-      clear();
+      release_free_stacks();
     }
 
     return conf_.stack_size = sz;
@@ -224,6 +229,11 @@ class LIBCOPP_COPP_API_HEAD_ONLY stack_pool {
   }
 
   size_t gc() {
+#if !defined(LIBCOPP_DISABLE_ATOMIC_LOCK) || !(LIBCOPP_DISABLE_ATOMIC_LOCK)
+    LIBCOPP_COPP_NAMESPACE_ID::util::lock::lock_holder<LIBCOPP_COPP_NAMESPACE_ID::util::lock::spin_lock> lock_guard(
+        action_lock_);
+#endif
+
     size_t ret = 0;
     // gc only if free stacks is greater than used
     if (limits_.used_stack_size >= limits_.free_stack_size && limits_.used_stack_number >= limits_.free_stack_number) {
@@ -241,11 +251,6 @@ class LIBCOPP_COPP_API_HEAD_ONLY stack_pool {
       }
     }
 
-#if !defined(LIBCOPP_DISABLE_ATOMIC_LOCK) || !(LIBCOPP_DISABLE_ATOMIC_LOCK)
-    LIBCOPP_COPP_NAMESPACE_ID::util::lock::lock_holder<LIBCOPP_COPP_NAMESPACE_ID::util::lock::spin_lock> lock_guard(
-        action_lock_);
-#endif
-
     size_t keep_size = limits_.free_stack_size >> 1;
     size_t keep_number = limits_.free_stack_number >> 1;
     size_t left_gc = conf_.gc_number;
@@ -295,6 +300,12 @@ class LIBCOPP_COPP_API_HEAD_ONLY stack_pool {
         action_lock_);
 #endif
 
+    release_free_stacks();
+  }
+
+ private:
+  // action_lock_ must be held
+  void release_free_stacks() {
     limits_.free_stack_size = 0;
     limits_.free_stack_number = 0;
 
-- 
2.43.0


From 254d8f6a0284a093cec26ad79b222032a275a97f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:46 +0000
Subject: [PATCH 19/40] fix: stack_pool's byte limit counts what the origin
 allocator really hands out

---
 include/libcopp/stack/stack_pool.h | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/include/libcopp/stack/stack_pool.h b/include/libcopp/stack/stack_pool.h
index f48326a..316c650 100755
--- a/include/libcopp/stack/stack_pool.h
+++ b/include/libcopp/stack/stack_pool.h
@@ -88,6 +88,7 @@ class LIBCOPP_COPP_API_HEAD_ONLY stack_pool {
 
     if (sz != conf_.stack_size) {
       release_free_stacks();
+      conf_.stack_offset = 0;
     }
 
     return conf_.stack_size = sz;
@@ -131,7 +132,8 @@ class LIBCOPP_COPP_API_HEAD_ONLY stack_pool {
       return;
     }
 
-    if (0 != conf_.max_stack_size && limits_.used_stack_size + conf_.stack_size > conf_.max_stack_size) {
+    if (0 != conf_.max_stack_size &&
+        limits_.used_stack_size + conf_.stack_size + conf_.stack_offset > conf_.max_stack_size) {
       ctx.sp = nullptr;
       ctx.size = 0;
       return;
@@ -173,6 +175,14 @@ class LIBCOPP_COPP_API_HEAD_ONLY stack_pool {
     // get from origin allocator
     alloc_.allocate(ctx, conf_.stack_size);
     if (nullptr != ctx.sp && ctx.size > 0) {
+      // the origin allocator may give more than it was asked for
+      if (0 != conf_.max_stack_size && limits_.used_stack_size + ctx.size > conf_.max_stack_size) {
+        alloc_.deallocate(ctx);
+        ctx.sp = nullptr;
+        ctx.size = 0;
+        return;
+      }
+
       // used limit
       ++limits_.used_stack_number;
       limits_.used_stack_size += ctx.size;
-- 
2.43.0


From c9187184b36a3d5ddcdb63895e0214200297609e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:14 +0000
Subject: [PATCH 20/40] fix: stack_allocator_memory never rounds a stack past
 the end of its block

---
 src/libcopp/stack/allocator/stack_allocator_memory.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/libcopp/stack/allocator/stack_allocator_memory.cpp b/src/libcopp/stack/allocator/stack_allocator_memory.cpp
index 2616a69..575db8f 100755
--- a/src/libcopp/stack/allocator/stack_allocator_memory.cpp
+++ b/src/libcopp/stack/allocator/stack_allocator_memory.cpp
@@ -101,7 +101,14 @@ LIBCOPP_COPP_API void stack_allocator_memory::allocate(stack_context &ctx, std::
   size = (std::min)(size, memory_size_);
 
   std::size_t size_ = stack_traits::round_to_page_size(size);
-  assert(size > 0 && size_ > 0 && size_ <= memory_size_);
+  if (size_ > memory_size_) {
+    // never run over the end of the attached memory
+    size_ = memory_size_ - memory_size_ % stack_traits::page_size();
+  }
+  if (size_ < stack_traits::minimum_size()) {
+    ctx.sp = nullptr;
+    return;
+  }
 
   ctx.size = size_;
   ctx.sp = static_cast<char *>(start_ptr_) + ctx.size;  // stack down
-- 
2.43.0


From a4c1778a84a6448b4c7b749cff8c2e795139b59f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:37 +0000
Subject: [PATCH 21/40] fix: stack allocators refuse sizes that overflow when
 rounded up

---
 src/libcopp/stack/allocator/stack_allocator_malloc.cpp | 5 +++++
 src/libcopp/stack/allocator/stack_allocator_posix.cpp  | 5 ++++-
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/libcopp/stack/allocator/stack_allocator_malloc.cpp b/src/libcopp/stack/allocator/stack_allocator_malloc.cpp
index 343c88b..923e3c5 100755
--- a/src/libcopp/stack/allocator/stack_allocator_malloc.cpp
+++ b/src/libcopp/stack/allocator/stack_allocator_malloc.cpp
@@ -51,6 +51,11 @@ LIBCOPP_COPP_API void stack_allocator_malloc::allocate(stack_context &ctx, std::
 
   std::size_t size_ = stack_traits::round_to_page_size(size);
 
+  if (size_ < size) {  // too large to be rounded up
+    ctx.sp = nullptr;
+    return;
+  }
+
   void *start_ptr = malloc(size_);
 
   if (!start_ptr) {
diff --git a/src/libcopp/stack/allocator/stack_allocator_posix.cpp b/src/libcopp/stack/allocator/stack_allocator_posix.cpp
index efb5b11..f40bce8 100755
--- a/src/libcopp/stack/allocator/stack_allocator_posix.cpp
+++ b/src/libcopp/stack/allocator/stack_allocator_posix.cpp
@@ -61,7 +61,10 @@ LIBCOPP_COPP_API void stack_allocator_posix::allocate(stack_context &ctx, std::s
   size = (std::min)(size, stack_traits::maximum_size());
 
   std::size_t size_ = stack_traits::round_to_page_size(size) + stack_traits::page_size();  // add one protected page
-  assert(size > 0 && size_ > 0);
+  if (size_ < size) {  // too large to be rounded up
+    ctx.sp = nullptr;
+    return;
+  }
 
   // conform to POSIX.4 (POSIX.1b-1993, _POSIX_C_SOURCE=199309L)
   void *start_ptr =
-- 
2.43.0


From 960ac5ed77fdaba617c027d644e4a796541736e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:58 +0000
Subject: [PATCH 22/40] fix: assigning one lock_holder to another hands the
 lock over

---
 include/libcopp/utils/lock_holder.h | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/libcopp/utils/lock_holder.h b/include/libcopp/utils/lock_holder.h
index 4a4ebf7..09c5e5b 100755
--- a/include/libcopp/utils/lock_holder.h
+++ b/include/libcopp/utils/lock_holder.h
@@ -91,11 +91,10 @@ class LIBCOPP_COPP_API_HEAD_ONLY lock_holder {
       return *this;
     }
 
-    if (lock_flag_ != other.lock_flag_) {
-      reset();
-    }
+    reset();
 
     lock_flag_ = other.lock_flag_;
+    other.lock_flag_ = nullptr;
     return *this;
   }
 
-- 
2.43.0


From 2e1994f2f2ed3d5de04a7e592c223da3d8b400a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:26 +0000
Subject: [PATCH 23/40] fix: swapping small results keeps a success and an
 error of different sizes intact

---
 include/libcopp/future/storage.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/libcopp/future/storage.h b/include/libcopp/future/storage.h
index 6350f4d..be47351 100644
--- a/include/libcopp/future/storage.h
+++ b/include/libcopp/future/storage.h
@@ -434,11 +434,11 @@ class LIBCOPP_COPP_API_HEAD_ONLY result_base<TOK, TERR, true> {
 
   inline void swap(result_base &other) LIBCOPP_MACRO_NOEXCEPT {
     using std::swap;
-    if (is_success()) {
-      swap(success_data_, other.success_data_);
-    } else {
-      swap(error_data_, other.error_data_);
-    }
+    // both are trivially copyable, but one side may hold a success and the other an error of a different size
+    unsigned char data[sizeof(success_type) < sizeof(error_type) ? sizeof(error_type) : sizeof(success_type)];
+    memcpy(data, &success_data_, sizeof(data));
+    memcpy(&success_data_, &other.success_data_, sizeof(data));
+    memcpy(&other.success_data_, data, sizeof(data));
     swap(mode_, other.mode_);
   }
 
-- 
2.43.0


From 92450229d95d485a3ba56e96769b5b05c6fe688c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:36 +0000
Subject: [PATCH 24/40] fix: write a finished task's data under the lock its
 killer uses

---
 include/libcotask/task.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/libcotask/task.h b/include/libcotask/task.h
index 81276f8..9a3813e 100755
--- a/include/libcotask/task.h
+++ b/include/libcotask/task.h
@@ -504,7 +504,14 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task : public impl::task_impl {
         }
       }
 
-      finish_priv_data_ = priv_data;
+      {
+#if !defined(LIBCOPP_DISABLE_ATOMIC_LOCK) || !(LIBCOPP_DISABLE_ATOMIC_LOCK)
+        // a killer may still be writing its data
+        LIBCOPP_COPP_NAMESPACE_ID::util::lock::lock_holder<LIBCOPP_COPP_NAMESPACE_ID::util::lock::spin_lock> lock_guard(
+            inner_action_lock_);
+#endif
+        finish_priv_data_ = priv_data;
+      }
 #if defined(LIBCOPP_MACRO_ENABLE_STD_EXCEPTION_PTR) && LIBCOPP_MACRO_ENABLE_STD_EXCEPTION_PTR
       _notify_finished(unhandled, priv_data);
 #else
-- 
2.43.0


From 12b28bbfce31c37ff5a52dbb17319f3f5114c8c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:44 +0000
Subject: [PATCH 25/40] fix: flags of a task manager shared by threads must not
 be lost or stuck

---
 include/libcotask/task_manager.h | 38 ++++++++++++++++++--------------
 1 file changed, 22 insertions(+), 16 deletions(-)

diff --git a/include/libcotask/task_manager.h b/include/libcotask/task_manager.h
index 2dd8eb5..cd450b0 100755
--- a/include/libcotask/task_manager.h
+++ b/include/libcotask/task_manager.h
@@ -190,20 +190,26 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task_manager<task<TCO_MACRO>> {
   using flag_t = flag_type;
 
  private:
+#if !defined(LIBCOPP_DISABLE_ATOMIC_LOCK) || !(LIBCOPP_DISABLE_ATOMIC_LOCK)
+  using flags_data_type = LIBCOPP_COPP_NAMESPACE_ID::util::lock::atomic_int_type<uint32_t>;
+#else
+  using flags_data_type = LIBCOPP_COPP_NAMESPACE_ID::util::lock::atomic_int_type<
+      LIBCOPP_COPP_NAMESPACE_ID::util::lock::unsafe_int_type<uint32_t>>;
+#endif
+
   struct flag_guard_type {
-    int *data_;
+    flags_data_type *data_;
     typename flag_type::type flag_;
-    inline flag_guard_type(int *flags, typename flag_type::type v) : data_(flags), flag_(v) {
-      if (nullptr == data_ || (*data_ & flag_)) {
+    inline flag_guard_type(flags_data_type *flags, typename flag_type::type v) : data_(flags), flag_(v) {
+      // different flags may be changed by different threads
+      if (nullptr == data_ || (data_->fetch_or(static_cast<uint32_t>(flag_)) & static_cast<uint32_t>(flag_))) {
         flag_ = flag_type::EN_TM_NONE;
         data_ = nullptr;
-      } else {
-        (*data_) |= flag_;
       }
     }
     inline ~flag_guard_type() {
       if (*this) {
-        (*data_) &= ~flag_;
+        data_->fetch_and(~static_cast<uint32_t>(flag_));
       }
     }
 
@@ -296,7 +302,7 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task_manager<task<TCO_MACRO>> {
       return LIBCOPP_COPP_NAMESPACE_ID::COPP_EC_ARGS_ERROR;
     }
 
-    if (flags_ & flag_type::EN_TM_IN_RESET) {
+    if (flags_.load() & flag_type::EN_TM_IN_RESET) {
       return LIBCOPP_COPP_NAMESPACE_ID::COPP_EC_IN_RESET;
     }
 
@@ -372,7 +378,7 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task_manager<task<TCO_MACRO>> {
    * @see tick
    */
   int set_timeout(id_type id, time_t timeout_sec, int timeout_nsec) {
-    if (flags_ & flag_type::EN_TM_IN_RESET) {
+    if (flags_.load() & flag_type::EN_TM_IN_RESET) {
       return LIBCOPP_COPP_NAMESPACE_ID::COPP_EC_IN_RESET;
     }
 
@@ -414,7 +420,7 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task_manager<task<TCO_MACRO>> {
    * @return 0 or error code
    */
   int remove_task(id_type id, const task_type *confirm_ptr) {
-    if (flags_ & flag_type::EN_TM_IN_RESET) {
+    if (flags_.load() & flag_type::EN_TM_IN_RESET) {
       return LIBCOPP_COPP_NAMESPACE_ID::COPP_EC_IN_RESET;
     }
 
@@ -463,7 +469,7 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task_manager<task<TCO_MACRO>> {
    * @return smart pointer of task
    */
   task_ptr_type find_task(id_type id) {
-    if (flags_ & flag_type::EN_TM_IN_RESET) {
+    if (flags_.load() & flag_type::EN_TM_IN_RESET) {
       return task_ptr_type();
     }
 
@@ -494,7 +500,7 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task_manager<task<TCO_MACRO>> {
 #else
   int start(id_type id, void *priv_data = nullptr) {
 #endif
-    if (flags_ & flag_type::EN_TM_IN_RESET) {
+    if (flags_.load() & flag_type::EN_TM_IN_RESET) {
       return LIBCOPP_COPP_NAMESPACE_ID::COPP_EC_IN_RESET;
     }
 
@@ -543,7 +549,7 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task_manager<task<TCO_MACRO>> {
 #else
   int resume(id_type id, void *priv_data = nullptr) {
 #endif
-    if (flags_ & flag_type::EN_TM_IN_RESET) {
+    if (flags_.load() & flag_type::EN_TM_IN_RESET) {
       return LIBCOPP_COPP_NAMESPACE_ID::COPP_EC_IN_RESET;
     }
 
@@ -592,7 +598,7 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task_manager<task<TCO_MACRO>> {
 #else
   int cancel(id_type id, void *priv_data = nullptr) {
 #endif
-    if (flags_ & flag_type::EN_TM_IN_RESET) {
+    if (flags_.load() & flag_type::EN_TM_IN_RESET) {
       return LIBCOPP_COPP_NAMESPACE_ID::COPP_EC_IN_RESET;
     }
 
@@ -650,7 +656,7 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task_manager<task<TCO_MACRO>> {
 #else
   int kill(id_type id, enum EN_TASK_STATUS status, void *priv_data = nullptr) {
 #endif
-    if (flags_ & flag_type::EN_TM_IN_RESET) {
+    if (flags_.load() & flag_type::EN_TM_IN_RESET) {
       return LIBCOPP_COPP_NAMESPACE_ID::COPP_EC_IN_RESET;
     }
 
@@ -716,7 +722,7 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task_manager<task<TCO_MACRO>> {
       return LIBCOPP_COPP_NAMESPACE_ID::COPP_EC_SUCCESS;
     }
 
-    if (flags_ & flag_type::EN_TM_IN_RESET) {
+    if (flags_.load() & flag_type::EN_TM_IN_RESET) {
       return LIBCOPP_COPP_NAMESPACE_ID::COPP_EC_IN_RESET;
     }
 
@@ -892,7 +898,7 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task_manager<task<TCO_MACRO>> {
 #if !defined(LIBCOPP_DISABLE_ATOMIC_LOCK) || !(LIBCOPP_DISABLE_ATOMIC_LOCK)
   LIBCOPP_COPP_NAMESPACE_ID::util::lock::spin_lock action_lock_;
 #endif
-  int flags_;
+  flags_data_type flags_;
 };
 
 #if defined(LIBCOPP_MACRO_ENABLE_STD_COROUTINE) && LIBCOPP_MACRO_ENABLE_STD_COROUTINE
-- 
2.43.0


From b45fdfe1bb5e7a43a882f4df80ce22e10c11dd90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:37 +0000
Subject: [PATCH 26/40] fix: a manager's tick must look at its timers and clock
 under the lock

The expiry check, the first-tick rebase decision and the last tick time were
read and written without action_lock_, while other threads add and remove
tasks with timers.
---
 include/libcotask/task_manager.h | 66 +++++++++++++++++---------------
 1 file changed, 36 insertions(+), 30 deletions(-)

diff --git a/include/libcotask/task_manager.h b/include/libcotask/task_manager.h
index cd450b0..ef19d9e 100755
--- a/include/libcotask/task_manager.h
+++ b/include/libcotask/task_manager.h
@@ -708,11 +708,6 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task_manager<task<TCO_MACRO>> {
    */
   int tick(time_t sec, int nsec = 0) {
     detail::tickspec_t now_tick_time;
-    // time can not be back
-    if (sec < last_tick_time_.tv_sec || (sec == last_tick_time_.tv_sec && nsec <= last_tick_time_.tv_nsec)) {
-      return 0;
-    }
-
     now_tick_time.tv_sec = sec;
     now_tick_time.tv_nsec = nsec;
 
@@ -722,46 +717,53 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task_manager<task<TCO_MACRO>> {
       return LIBCOPP_COPP_NAMESPACE_ID::COPP_EC_SUCCESS;
     }
 
-    if (flags_.load() & flag_type::EN_TM_IN_RESET) {
-      return LIBCOPP_COPP_NAMESPACE_ID::COPP_EC_IN_RESET;
-    }
-
-    // first tick, init and reset task timeout
-    if (0 == last_tick_time_.tv_sec && 0 == last_tick_time_.tv_nsec) {
+    {
       // hold lock
 #if !defined(LIBCOPP_DISABLE_ATOMIC_LOCK) || !(LIBCOPP_DISABLE_ATOMIC_LOCK)
       LIBCOPP_COPP_NAMESPACE_ID::util::lock::lock_holder<LIBCOPP_COPP_NAMESPACE_ID::util::lock::spin_lock> lock_guard{
           action_lock_};
 #endif
 
-      std::set<detail::task_timer_node<id_type>> real_checkpoints;
-      for (typename std::set<detail::task_timer_node<id_type>>::iterator iter = task_timeout_timer_.begin();
-           task_timeout_timer_.end() != iter; ++iter) {
-        detail::task_timer_node<id_type> new_checkpoint = (*iter);
-        detail::tickspec_add(new_checkpoint.expired_time, sec, nsec);
-        real_checkpoints.insert(new_checkpoint);
+      // time can not be back
+      if (now_tick_time <= last_tick_time_) {
+        return LIBCOPP_COPP_NAMESPACE_ID::COPP_EC_SUCCESS;
       }
 
-      task_timeout_timer_.swap(real_checkpoints);
-      for (typename std::set<detail::task_timer_node<id_type>>::iterator iter = task_timeout_timer_.begin();
-           task_timeout_timer_.end() != iter; ++iter) {
-        const typename std::set<detail::task_timer_node<id_type>>::value_type &checkpoint = *iter;
-        using co_iter_type = typename container_type::iterator;
-        co_iter_type  co_iter = tasks_.find(checkpoint.task_id);
+      if (flags_.load() & flag_type::EN_TM_IN_RESET) {
+        return LIBCOPP_COPP_NAMESPACE_ID::COPP_EC_IN_RESET;
+      }
 
-        if (tasks_.end() != co_iter) {
-          co_iter->second.timer_node = iter;
+      // first tick, init and reset task timeout
+      if (0 == last_tick_time_.tv_sec && 0 == last_tick_time_.tv_nsec) {
+        std::set<detail::task_timer_node<id_type>> real_checkpoints;
+        for (typename std::set<detail::task_timer_node<id_type>>::iterator iter = task_timeout_timer_.begin();
+             task_timeout_timer_.end() != iter; ++iter) {
+          detail::task_timer_node<id_type> new_checkpoint = (*iter);
+          detail::tickspec_add(new_checkpoint.expired_time, sec, nsec);
+          real_checkpoints.insert(new_checkpoint);
         }
+
+        task_timeout_timer_.swap(real_checkpoints);
+        for (typename std::set<detail::task_timer_node<id_type>>::iterator iter = task_timeout_timer_.begin();
+             task_timeout_timer_.end() != iter; ++iter) {
+          const typename std::set<detail::task_timer_node<id_type>>::value_type &checkpoint = *iter;
+          using co_iter_type = typename container_type::iterator;
+          co_iter_type  co_iter = tasks_.find(checkpoint.task_id);
+
+          if (tasks_.end() != co_iter) {
+            co_iter->second.timer_node = iter;
+          }
+        }
+        last_tick_time_ = now_tick_time;
+        return LIBCOPP_COPP_NAMESPACE_ID::COPP_EC_SUCCESS;
       }
-      last_tick_time_ = now_tick_time;
-      return LIBCOPP_COPP_NAMESPACE_ID::COPP_EC_SUCCESS;
     }
 
 #if defined(LIBCOPP_MACRO_ENABLE_STD_EXCEPTION_PTR) && LIBCOPP_MACRO_ENABLE_STD_EXCEPTION_PTR
     std::list<std::exception_ptr> eptrs;
 #endif
     // remove timeout tasks
-    while (false == task_timeout_timer_.empty()) {
+    while (true) {
       task_ptr_type task_inst;
 
       {
@@ -771,10 +773,16 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task_manager<task<TCO_MACRO>> {
             action_lock_};
 #endif
 
+        if (task_timeout_timer_.empty()) {
+          last_tick_time_ = now_tick_time;
+          break;
+        }
+
         const typename std::set<detail::task_timer_node<id_type>>::value_type &timer_node =
             *task_timeout_timer_.begin();
         // all tasks those expired time less than now are timeout
         if (now_tick_time <= timer_node.expired_time) {
+          last_tick_time_ = now_tick_time;
           break;
         }
 
@@ -809,8 +817,6 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task_manager<task<TCO_MACRO>> {
       }
     }
 
-    last_tick_time_ = now_tick_time;
-
 #if defined(LIBCOPP_MACRO_ENABLE_STD_EXCEPTION_PTR) && LIBCOPP_MACRO_ENABLE_STD_EXCEPTION_PTR
     task_type::maybe_rethrow(eptrs);
 #endif
-- 
2.43.0


From bdf7e07ad39d3ea26a8c31c929da38cc939022aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:38 +0000
Subject: [PATCH 27/40] fix: a task finishing while its manager is reset by
 another thread leaves the manager

remove_task() refuses to work during a reset, but the removal of a finished
task must not be skipped: a task added just before the reset took the lock's
content would stay in the manager forever.
---
 include/libcotask/task_manager.h | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/include/libcotask/task_manager.h b/include/libcotask/task_manager.h
index ef19d9e..d7075e3 100755
--- a/include/libcotask/task_manager.h
+++ b/include/libcotask/task_manager.h
@@ -424,6 +424,12 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task_manager<task<TCO_MACRO>> {
       return LIBCOPP_COPP_NAMESPACE_ID::COPP_EC_IN_RESET;
     }
 
+    return internal_remove_task(id, confirm_ptr);
+  }
+
+ private:
+  // A finished task leaves the manager even when another thread is resetting it
+  int internal_remove_task(id_type id, const task_type *confirm_ptr) {
     task_ptr_type task_inst;
     {
 #if !defined(LIBCOPP_DISABLE_ATOMIC_LOCK) || !(LIBCOPP_DISABLE_ATOMIC_LOCK)
@@ -463,6 +469,7 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task_manager<task<TCO_MACRO>> {
     return LIBCOPP_COPP_NAMESPACE_ID::COPP_EC_SUCCESS;
   }
 
+ public:
   /**
    * @brief find task by id
    * @param id task id
@@ -528,7 +535,7 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task_manager<task<TCO_MACRO>> {
 
       // if task is finished, remove it
       if (task_inst->get_status() >= EN_TS_DONE) {
-        remove_task(id);
+        internal_remove_task(id, task_inst.get());
       }
 
       return ret;
@@ -577,7 +584,7 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task_manager<task<TCO_MACRO>> {
 
       // if task is finished, remove it
       if (task_inst->get_status() >= EN_TS_DONE) {
-        remove_task(id);
+        internal_remove_task(id, task_inst.get());
       }
 
       return ret;
@@ -892,7 +899,7 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task_manager<task<TCO_MACRO>> {
       return;
     }
 
-    reinterpret_cast<self_type *>(self_ptr)->remove_task(task_inst.get_id(), &task_inst);
+    reinterpret_cast<self_type *>(self_ptr)->internal_remove_task(task_inst.get_id(), &task_inst);
   }
 #endif
 
-- 
2.43.0


From 74395a6e2b0100bc12dcc00a04e2adbc9cf5055c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:54 +0000
Subject: [PATCH 28/40] fix: adding a task that finishes meanwhile on another
 thread does not leave it in the manager

add_task() checked is_exiting() only before taking its lock: a task finishing
between that check and setup_task_manager() had nothing left to call the
cleanup of the manager, so it stayed a member forever.
---
 include/libcotask/task_manager.h | 45 +++++++++++++++++++-------------
 1 file changed, 27 insertions(+), 18 deletions(-)

diff --git a/include/libcotask/task_manager.h b/include/libcotask/task_manager.h
index d7075e3..3d701e2 100755
--- a/include/libcotask/task_manager.h
+++ b/include/libcotask/task_manager.h
@@ -321,35 +321,44 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task_manager<task<TCO_MACRO>> {
       return LIBCOPP_COPP_NAMESPACE_ID::COPP_EC_CAST_FAILED;
     }
 
-    // lock before we will operator tasks_
+    id_type task_id = task->get_id();
+    {
+      // lock before we will operator tasks_
 #if !defined(LIBCOPP_DISABLE_ATOMIC_LOCK) || !(LIBCOPP_DISABLE_ATOMIC_LOCK)
-    LIBCOPP_COPP_NAMESPACE_ID::util::lock::lock_holder<LIBCOPP_COPP_NAMESPACE_ID::util::lock::spin_lock> lock_guard{
-        action_lock_};
+      LIBCOPP_COPP_NAMESPACE_ID::util::lock::lock_holder<LIBCOPP_COPP_NAMESPACE_ID::util::lock::spin_lock> lock_guard{
+          action_lock_};
 #endif
 
-    id_type task_id = task->get_id();
-    if (tasks_.end() != tasks_.find(task_id)) {
-      return LIBCOPP_COPP_NAMESPACE_ID::COPP_EC_ALREADY_EXIST;
-    }
+      if (tasks_.end() != tasks_.find(task_id)) {
+        return LIBCOPP_COPP_NAMESPACE_ID::COPP_EC_ALREADY_EXIST;
+      }
 
 #if defined(LIBCOTASK_MACRO_AUTO_CLEANUP_MANAGER) && LIBCOTASK_MACRO_AUTO_CLEANUP_MANAGER
-    using task_manager_helper = typename task_type::task_manager_helper;
-    if (!task_manager_helper::setup_task_manager(*task, reinterpret_cast<void *>(this), &task_cleanup_callback)) {
-      return LIBCOPP_COPP_NAMESPACE_ID::COPP_EC_TASK_ALREADY_IN_ANOTHER_MANAGER;
-    }
+      using task_manager_helper = typename task_type::task_manager_helper;
+      if (!task_manager_helper::setup_task_manager(*task, reinterpret_cast<void *>(this), &task_cleanup_callback)) {
+        return LIBCOPP_COPP_NAMESPACE_ID::COPP_EC_TASK_ALREADY_IN_ANOTHER_MANAGER;
+      }
 #endif
 
-    // try to insert to container
-    std::pair<typename container_type::iterator, bool> res = tasks_.insert(pair_type(task_id, task_node));
-    if (false == res.second) {
+      // try to insert to container
+      std::pair<typename container_type::iterator, bool> res = tasks_.insert(pair_type(task_id, task_node));
+      if (false == res.second) {
 #if defined(LIBCOTASK_MACRO_AUTO_CLEANUP_MANAGER) && LIBCOTASK_MACRO_AUTO_CLEANUP_MANAGER
-      task_manager_helper::cleanup_task_manager(*task, reinterpret_cast<void *>(this));
+        task_manager_helper::cleanup_task_manager(*task, reinterpret_cast<void *>(this));
 #endif
-      return LIBCOPP_COPP_NAMESPACE_ID::COPP_EC_EXTERNAL_INSERT_FAILED;
+        return LIBCOPP_COPP_NAMESPACE_ID::COPP_EC_EXTERNAL_INSERT_FAILED;
+      }
+
+      // add timeout controller
+      set_timeout_timer(res.first->second, timeout_sec, timeout_nsec);
+    }
+
+    // the task may finish on another thread before the insertion, nobody will remove it then
+    if (task->is_exiting()) {
+      internal_remove_task(task_id, task.get());
+      return LIBCOPP_COPP_NAMESPACE_ID::COPP_EC_TASK_IS_EXITING;
     }
 
-    // add timeout controller
-    set_timeout_timer(res.first->second, timeout_sec, timeout_nsec);
     return LIBCOPP_COPP_NAMESPACE_ID::COPP_EC_SUCCESS;
   }
 
-- 
2.43.0


From 310b3352a68c8035bc54f96c1196066ce004af5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:27 +0000
Subject: [PATCH 29/40] fix: a cancel refused because the task was started
 meanwhile keeps it in its manager

cancel(id) took the task out of the manager before trying to cancel it; when
another thread started the task in between, the cancel was refused but the
task was no longer managed. Remove it once it has really ended.
---
 include/libcotask/task_manager.h | 26 ++++++++++----------------
 1 file changed, 10 insertions(+), 16 deletions(-)

diff --git a/include/libcotask/task_manager.h b/include/libcotask/task_manager.h
index 3d701e2..9f8a73a 100755
--- a/include/libcotask/task_manager.h
+++ b/include/libcotask/task_manager.h
@@ -631,29 +631,23 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task_manager<task<TCO_MACRO>> {
         return LIBCOPP_COPP_NAMESPACE_ID::COPP_EC_NOT_FOUND;
       }
 
-      // a running task can not be canceled and stays in the manager
-      if (iter->second.task_ && EN_TS_RUNNING == iter->second.task_->get_status()) {
-        return LIBCOPP_COPP_NAMESPACE_ID::COPP_EC_IS_RUNNING;
-      }
-
-      task_inst = std::move(iter->second.task_);
-
-      remove_timeout_timer(iter->second);
-      tasks_.erase(iter);  // remove from container
+      task_inst = iter->second.task_;
     }
 
     // unlock and then run cancel
     if (task_inst) {
-#if defined(LIBCOTASK_MACRO_AUTO_CLEANUP_MANAGER) && LIBCOTASK_MACRO_AUTO_CLEANUP_MANAGER
-      using task_manager_helper = typename task_type::task_manager_helper;
-      // already cleanup, there is no need to cleanup again
-      task_manager_helper::cleanup_task_manager(*task_inst, reinterpret_cast<void *>(this));
-#endif
 #if defined(LIBCOPP_MACRO_ENABLE_STD_EXCEPTION_PTR) && LIBCOPP_MACRO_ENABLE_STD_EXCEPTION_PTR
-      return task_inst->cancel(unhandled, priv_data);
+      int ret = task_inst->cancel(unhandled, priv_data);
 #else
-      return task_inst->cancel(priv_data);
+      int ret = task_inst->cancel(priv_data);
 #endif
+
+      // a running task can not be canceled and stays in the manager
+      if (task_inst->is_exiting()) {
+        internal_remove_task(id, task_inst.get());
+      }
+
+      return ret;
     } else {
       return LIBCOPP_COPP_NAMESPACE_ID::COPP_EC_NOT_FOUND;
     }
-- 
2.43.0


From 581673347a9deb2dcc26553381ebb0cb2685c7d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:08 +0000
Subject: [PATCH 30/40] fix: a coroutine is ready to be resumed only after it
 has been switched out

yield() marked the coroutine as ready before its context was saved, so that
another thread could start it while it was still running on its stack.
---
 src/libcopp/coroutine/coroutine_context.cpp | 27 ++++++++++-----------
 1 file changed, 13 insertions(+), 14 deletions(-)

diff --git a/src/libcopp/coroutine/coroutine_context.cpp b/src/libcopp/coroutine/coroutine_context.cpp
index 4abd2f6..f56daa7 100755
--- a/src/libcopp/coroutine/coroutine_context.cpp
+++ b/src/libcopp/coroutine/coroutine_context.cpp
@@ -397,18 +397,22 @@ LIBCOPP_COPP_API int coroutine_context::start(void *priv_data) {
   jump_to(callee_, callee_stack_, callee_stack_, jump_data);
 #endif
 
-  // Move changing status to EN_CRS_EXITED is finished
-  if (check_flags(flag_type::EN_CFT_FINISHED)) {
-    // if in finished status, change it to exited
-    status_.store(status_type::EN_CRS_EXITED, LIBCOPP_COPP_NAMESPACE_ID::util::lock::memory_order_release);
-  }
-
 #if defined(LIBCOPP_MACRO_ENABLE_STD_EXCEPTION_PTR) && LIBCOPP_MACRO_ENABLE_STD_EXCEPTION_PTR
   COPP_UNLIKELY_IF (unhandle_exception_) {
     std::swap(unhandled, unhandle_exception_);
   }
 #endif
 
+  // The coroutine has left its stack and its context is saved now.
+  // It must not be ready any earlier, or another thread may resume it when it's still being switched out.
+  // And it may be resumed by another thread once it's ready, so do not touch it any more.
+  if (check_flags(flag_type::EN_CFT_FINISHED)) {
+    // if in finished status, change it to exited
+    status_.store(status_type::EN_CRS_EXITED, LIBCOPP_COPP_NAMESPACE_ID::util::lock::memory_order_release);
+  } else {
+    status_.store(status_type::EN_CRS_READY, LIBCOPP_COPP_NAMESPACE_ID::util::lock::memory_order_release);
+  }
+
   return COPP_EC_SUCCESS;
 }
 
@@ -424,14 +428,9 @@ LIBCOPP_COPP_API int coroutine_context::yield(void **priv_data) LIBCOPP_MACRO_NO
     return COPP_EC_NOT_INITED;
   }
 
-  int from_status = status_type::EN_CRS_RUNNING;
-  int to_status = status_type::EN_CRS_READY;
-  if (check_flags(flag_type::EN_CFT_FINISHED)) {
-    to_status = status_type::EN_CRS_FINISHED;
-  }
-  if (false == status_.compare_exchange_strong(from_status, to_status,
-                                               LIBCOPP_COPP_NAMESPACE_ID::util::lock::memory_order_acq_rel,
-                                               LIBCOPP_COPP_NAMESPACE_ID::util::lock::memory_order_acquire)) {
+  // the status will be changed by start() after the context is saved
+  int from_status = status_.load(LIBCOPP_COPP_NAMESPACE_ID::util::lock::memory_order_acquire);
+  if (status_type::EN_CRS_RUNNING != from_status) {
     switch (from_status) {
       case status_type::EN_CRS_INVALID:
         return COPP_EC_NOT_INITED;
-- 
2.43.0


From 294ef6a63f46d78ad116aaaa641deffa28c84fa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:10 +0000
Subject: [PATCH 31/40] fix: start() reads the context pointer of a coroutine
 only when it may run it

Another thread that drives the coroutine writes callee_ meanwhile.
---
 src/libcopp/coroutine/coroutine_context.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/libcopp/coroutine/coroutine_context.cpp b/src/libcopp/coroutine/coroutine_context.cpp
index f56daa7..4b2a256 100755
--- a/src/libcopp/coroutine/coroutine_context.cpp
+++ b/src/libcopp/coroutine/coroutine_context.cpp
@@ -346,10 +346,6 @@ LIBCOPP_COPP_API int coroutine_context::start(std::exception_ptr &unhandled, voi
 #else
 LIBCOPP_COPP_API int coroutine_context::start(void *priv_data) {
 #endif
-  if (nullptr == callee_) {
-    return COPP_EC_NOT_INITED;
-  }
-
 #if defined(LIBCOPP_MACRO_ENABLE_WIN_FIBER) && LIBCOPP_MACRO_ENABLE_WIN_FIBER
   {
     coroutine_context_base *this_ctx = detail::get_this_coroutine_context();
@@ -382,6 +378,12 @@ LIBCOPP_COPP_API int coroutine_context::start(void *priv_data) {
     }
   } while (true);
 
+  // callee_ is written whenever the coroutine is switched out, so only the one who runs it can read it
+  if (nullptr == callee_) {
+    status_.store(status_type::EN_CRS_READY, LIBCOPP_COPP_NAMESPACE_ID::util::lock::memory_order_release);
+    return COPP_EC_NOT_INITED;
+  }
+
   jump_src_data_t jump_data;
 #if defined(LIBCOPP_MACRO_ENABLE_WIN_FIBER) && LIBCOPP_MACRO_ENABLE_WIN_FIBER
   jump_data.from_co = LIBCOPP_COPP_NAMESPACE_ID::this_coroutine::get_coroutine();
-- 
2.43.0


From da5cf02b52984d956bd4c0e562c1c10287916814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:53 +0000
Subject: [PATCH 32/40] fix: set_runner() makes the coroutine ready only after
 the runner is in place

Another thread could start it before, and would have run no runner or a half moved one.
---
 include/libcopp/coroutine/coroutine_context_base.h | 1 +
 src/libcopp/coroutine/coroutine_context.cpp        | 5 ++++-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/libcopp/coroutine/coroutine_context_base.h b/include/libcopp/coroutine/coroutine_context_base.h
index a00f452..3ccf1ec 100644
--- a/include/libcopp/coroutine/coroutine_context_base.h
+++ b/include/libcopp/coroutine/coroutine_context_base.h
@@ -78,6 +78,7 @@ class coroutine_context_base {
    */
   struct LIBCOPP_COPP_API status_type {
     enum type {
+      EN_CRS_INITIALIZING = -1,  //!< EN_CRS_INITIALIZING, a runner is being set
       EN_CRS_INVALID = 0,  //!< EN_CRS_INVALID
       EN_CRS_READY,        //!< EN_CRS_READY
       EN_CRS_RUNNING,      //!< EN_CRS_RUNNING
diff --git a/src/libcopp/coroutine/coroutine_context.cpp b/src/libcopp/coroutine/coroutine_context.cpp
index 4b2a256..eb0c22d 100755
--- a/src/libcopp/coroutine/coroutine_context.cpp
+++ b/src/libcopp/coroutine/coroutine_context.cpp
@@ -104,14 +104,16 @@ LIBCOPP_COPP_API int coroutine_context_base::set_runner(callback_type &&runner)
     return COPP_EC_ARGS_ERROR;
   }
 
+  // nobody can start it or set another runner before the runner is in place
   int from_status = status_type::EN_CRS_INVALID;
-  if (false == status_.compare_exchange_strong(from_status, status_type::EN_CRS_READY,
+  if (false == status_.compare_exchange_strong(from_status, status_type::EN_CRS_INITIALIZING,
                                                LIBCOPP_COPP_NAMESPACE_ID::util::lock::memory_order_acq_rel,
                                                LIBCOPP_COPP_NAMESPACE_ID::util::lock::memory_order_acquire)) {
     return COPP_EC_ALREADY_INITED;
   }
 
   runner_ = std::move(runner);
+  status_.store(status_type::EN_CRS_READY, LIBCOPP_COPP_NAMESPACE_ID::util::lock::memory_order_release);
   return COPP_EC_SUCCESS;
 }
 
@@ -434,6 +436,7 @@ LIBCOPP_COPP_API int coroutine_context::yield(void **priv_data) LIBCOPP_MACRO_NO
   int from_status = status_.load(LIBCOPP_COPP_NAMESPACE_ID::util::lock::memory_order_acquire);
   if (status_type::EN_CRS_RUNNING != from_status) {
     switch (from_status) {
+      case status_type::EN_CRS_INITIALIZING:
       case status_type::EN_CRS_INVALID:
         return COPP_EC_NOT_INITED;
       case status_type::EN_CRS_READY:
-- 
2.43.0


From 74d8ad8cff7afb8ad84e599c912c70554320e1b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:30 +0000
Subject: [PATCH 33/40] fix: flags of a C++20 task manager shared by threads
 must not be lost or stuck

---
 include/libcotask/task_manager.h | 36 +++++++++++++++++++-------------
 1 file changed, 21 insertions(+), 15 deletions(-)

diff --git a/include/libcotask/task_manager.h b/include/libcotask/task_manager.h
index 9f8a73a..e40f1f2 100755
--- a/include/libcotask/task_manager.h
+++ b/include/libcotask/task_manager.h
@@ -938,20 +938,26 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task_manager<task_future<TVALUE, TPRIVATE_DAT
   };
 
  private:
+#  if !defined(LIBCOPP_DISABLE_ATOMIC_LOCK) || !(LIBCOPP_DISABLE_ATOMIC_LOCK)
+  using flags_data_type = LIBCOPP_COPP_NAMESPACE_ID::util::lock::atomic_int_type<uint32_t>;
+#  else
+  using flags_data_type = LIBCOPP_COPP_NAMESPACE_ID::util::lock::atomic_int_type<
+      LIBCOPP_COPP_NAMESPACE_ID::util::lock::unsafe_int_type<uint32_t>>;
+#  endif
+
   struct flag_guard_type {
-    uint32_t *data_;
+    flags_data_type *data_;
     flag_type flag_;
-    inline flag_guard_type(uint32_t *flags, flag_type v) : data_(flags), flag_(v) {
-      if (nullptr == data_ || (*data_ & static_cast<uint32_t>(flag_))) {
+    inline flag_guard_type(flags_data_type *flags, flag_type v) : data_(flags), flag_(v) {
+      // different flags may be changed by different threads
+      if (nullptr == data_ || (data_->fetch_or(static_cast<uint32_t>(flag_)) & static_cast<uint32_t>(flag_))) {
         flag_ = flag_type::kNone;
         data_ = nullptr;
-      } else {
-        (*data_) |= static_cast<uint32_t>(flag_);
       }
     }
     inline ~flag_guard_type() {
       if (*this) {
-        (*data_) &= ~static_cast<uint32_t>(flag_);
+        data_->fetch_and(~static_cast<uint32_t>(flag_));
       }
     }
 
@@ -1029,7 +1035,7 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task_manager<task_future<TVALUE, TPRIVATE_DAT
    * @see tick
    */
   int add_task(const task_type &task, time_t timeout_sec, int timeout_nsec) noexcept {
-    if (flags_ & static_cast<uint32_t>(flag_type::kTimerReset)) {
+    if (flags_.load() & static_cast<uint32_t>(flag_type::kTimerReset)) {
       return LIBCOPP_COPP_NAMESPACE_ID::COPP_EC_IN_RESET;
     }
 
@@ -1101,7 +1107,7 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task_manager<task_future<TVALUE, TPRIVATE_DAT
    * @see tick
    */
   int set_timeout(id_type id, time_t timeout_sec, int timeout_nsec) noexcept {
-    if (flags_ & static_cast<uint32_t>(flag_type::kTimerReset)) {
+    if (flags_.load() & static_cast<uint32_t>(flag_type::kTimerReset)) {
       return LIBCOPP_COPP_NAMESPACE_ID::COPP_EC_IN_RESET;
     }
 
@@ -1145,7 +1151,7 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task_manager<task_future<TVALUE, TPRIVATE_DAT
    * @return 0 or error code
    */
   int remove_task(id_type id, const task_context_base<TVALUE> *confirm_context) {
-    if (flags_ & static_cast<uint32_t>(flag_type::kTimerReset)) {
+    if (flags_.load() & static_cast<uint32_t>(flag_type::kTimerReset)) {
       return LIBCOPP_COPP_NAMESPACE_ID::COPP_EC_IN_RESET;
     }
 
@@ -1194,7 +1200,7 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task_manager<task_future<TVALUE, TPRIVATE_DAT
    * @return pointer of task
    */
   const task_type *find_task(id_type id) noexcept {
-    if (flags_ & static_cast<uint32_t>(flag_type::kTimerReset)) {
+    if (flags_.load() & static_cast<uint32_t>(flag_type::kTimerReset)) {
       return nullptr;
     }
 
@@ -1212,7 +1218,7 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task_manager<task_future<TVALUE, TPRIVATE_DAT
   }
 
   int start(id_type id) {
-    if (flags_ & static_cast<uint32_t>(flag_type::kTimerReset)) {
+    if (flags_.load() & static_cast<uint32_t>(flag_type::kTimerReset)) {
       return LIBCOPP_COPP_NAMESPACE_ID::COPP_EC_IN_RESET;
     }
 
@@ -1246,7 +1252,7 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task_manager<task_future<TVALUE, TPRIVATE_DAT
   }
 
   int cancel(id_type id) {
-    if (flags_ & static_cast<uint32_t>(flag_type::kTimerReset)) {
+    if (flags_.load() & static_cast<uint32_t>(flag_type::kTimerReset)) {
       return LIBCOPP_COPP_NAMESPACE_ID::COPP_EC_IN_RESET;
     }
 
@@ -1284,7 +1290,7 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task_manager<task_future<TVALUE, TPRIVATE_DAT
   }
 
   int kill(id_type id, task_status_type target_status) {
-    if (flags_ & static_cast<uint32_t>(flag_type::kTimerReset)) {
+    if (flags_.load() & static_cast<uint32_t>(flag_type::kTimerReset)) {
       return LIBCOPP_COPP_NAMESPACE_ID::COPP_EC_IN_RESET;
     }
 
@@ -1347,7 +1353,7 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task_manager<task_future<TVALUE, TPRIVATE_DAT
       return LIBCOPP_COPP_NAMESPACE_ID::COPP_EC_SUCCESS;
     }
 
-    if (flags_ & static_cast<uint32_t>(flag_type::kTimerReset)) {
+    if (flags_.load() & static_cast<uint32_t>(flag_type::kTimerReset)) {
       return LIBCOPP_COPP_NAMESPACE_ID::COPP_EC_IN_RESET;
     }
 
@@ -1512,7 +1518,7 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task_manager<task_future<TVALUE, TPRIVATE_DAT
 #  if !defined(LIBCOPP_DISABLE_ATOMIC_LOCK) || !(LIBCOPP_DISABLE_ATOMIC_LOCK)
   LIBCOPP_COPP_NAMESPACE_ID::util::lock::spin_lock action_lock_;
 #  endif
-  uint32_t flags_;
+  flags_data_type flags_;
 };
 #endif
 
-- 
2.43.0


From 0723cba6da952feb63ff0a1924e10a9c6283972c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:30 +0000
Subject: [PATCH 34/40] fix: a C++20 manager's tick must look at its timers and
 clock under the lock

---
 include/libcotask/task_manager.h | 65 ++++++++++++++++++--------------
 1 file changed, 36 insertions(+), 29 deletions(-)

diff --git a/include/libcotask/task_manager.h b/include/libcotask/task_manager.h
index e40f1f2..1a91e02 100755
--- a/include/libcotask/task_manager.h
+++ b/include/libcotask/task_manager.h
@@ -1339,11 +1339,6 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task_manager<task_future<TVALUE, TPRIVATE_DAT
    */
   int tick(time_t sec, int nsec = 0) {
     detail::tickspec_t now_tick_time;
-    // time can not be back
-    if (sec < last_tick_time_.tv_sec || (sec == last_tick_time_.tv_sec && nsec <= last_tick_time_.tv_nsec)) {
-      return 0;
-    }
-
     now_tick_time.tv_sec = sec;
     now_tick_time.tv_nsec = nsec;
 
@@ -1353,43 +1348,50 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task_manager<task_future<TVALUE, TPRIVATE_DAT
       return LIBCOPP_COPP_NAMESPACE_ID::COPP_EC_SUCCESS;
     }
 
-    if (flags_.load() & static_cast<uint32_t>(flag_type::kTimerReset)) {
-      return LIBCOPP_COPP_NAMESPACE_ID::COPP_EC_IN_RESET;
-    }
-
-    // first tick, init and reset task timeout
-    if (0 == last_tick_time_.tv_sec && 0 == last_tick_time_.tv_nsec) {
+    {
       // hold lock
 #  if !defined(LIBCOPP_DISABLE_ATOMIC_LOCK) || !(LIBCOPP_DISABLE_ATOMIC_LOCK)
       LIBCOPP_COPP_NAMESPACE_ID::util::lock::lock_holder<LIBCOPP_COPP_NAMESPACE_ID::util::lock::spin_lock> lock_guard{
           action_lock_};
 #  endif
 
-      std::set<detail::task_timer_node<id_type>> real_checkpoints;
-      for (typename std::set<detail::task_timer_node<id_type>>::iterator iter = task_timeout_timer_.begin();
-           task_timeout_timer_.end() != iter; ++iter) {
-        detail::task_timer_node<id_type> new_checkpoint = (*iter);
-        detail::tickspec_add(new_checkpoint.expired_time, sec, nsec);
-        real_checkpoints.insert(new_checkpoint);
+      // time can not be back
+      if (now_tick_time <= last_tick_time_) {
+        return LIBCOPP_COPP_NAMESPACE_ID::COPP_EC_SUCCESS;
       }
 
-      task_timeout_timer_.swap(real_checkpoints);
-      for (typename std::set<detail::task_timer_node<id_type>>::iterator iter = task_timeout_timer_.begin();
-           task_timeout_timer_.end() != iter; ++iter) {
-        const typename std::set<detail::task_timer_node<id_type>>::value_type &checkpoint = *iter;
-        using co_iter_type = typename container_type::iterator;
-        co_iter_type  co_iter = tasks_.find(checkpoint.task_id);
+      if (flags_.load() & static_cast<uint32_t>(flag_type::kTimerReset)) {
+        return LIBCOPP_COPP_NAMESPACE_ID::COPP_EC_IN_RESET;
+      }
+
+      // first tick, init and reset task timeout
+      if (0 == last_tick_time_.tv_sec && 0 == last_tick_time_.tv_nsec) {
+        std::set<detail::task_timer_node<id_type>> real_checkpoints;
+        for (typename std::set<detail::task_timer_node<id_type>>::iterator iter = task_timeout_timer_.begin();
+             task_timeout_timer_.end() != iter; ++iter) {
+          detail::task_timer_node<id_type> new_checkpoint = (*iter);
+          detail::tickspec_add(new_checkpoint.expired_time, sec, nsec);
+          real_checkpoints.insert(new_checkpoint);
+        }
+
+        task_timeout_timer_.swap(real_checkpoints);
+        for (typename std::set<detail::task_timer_node<id_type>>::iterator iter = task_timeout_timer_.begin();
+             task_timeout_timer_.end() != iter; ++iter) {
+          const typename std::set<detail::task_timer_node<id_type>>::value_type &checkpoint = *iter;
+          using co_iter_type = typename container_type::iterator;
+          co_iter_type  co_iter = tasks_.find(checkpoint.task_id);
 
-        if (tasks_.end() != co_iter) {
-          co_iter->second.timer_node = iter;
+          if (tasks_.end() != co_iter) {
+            co_iter->second.timer_node = iter;
+          }
         }
+        last_tick_time_ = now_tick_time;
+        return LIBCOPP_COPP_NAMESPACE_ID::COPP_EC_SUCCESS;
       }
-      last_tick_time_ = now_tick_time;
-      return LIBCOPP_COPP_NAMESPACE_ID::COPP_EC_SUCCESS;
     }
 
     // remove timeout tasks
-    while (false == task_timeout_timer_.empty()) {
+    while (true) {
       task_type task_inst;
 
       {
@@ -1399,10 +1401,16 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task_manager<task_future<TVALUE, TPRIVATE_DAT
             action_lock_};
 #  endif
 
+        if (task_timeout_timer_.empty()) {
+          last_tick_time_ = now_tick_time;
+          break;
+        }
+
         const typename std::set<detail::task_timer_node<id_type>>::value_type &timer_node =
             *task_timeout_timer_.begin();
         // all tasks those expired time less than now are timeout
         if (now_tick_time <= timer_node.expired_time) {
+          last_tick_time_ = now_tick_time;
           break;
         }
 
@@ -1433,7 +1441,6 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task_manager<task_future<TVALUE, TPRIVATE_DAT
       }
     }
 
-    last_tick_time_ = now_tick_time;
     return LIBCOPP_COPP_NAMESPACE_ID::COPP_EC_SUCCESS;
   }
 
-- 
2.43.0


From 3623d7be240083ee8ab1533098971502a7e2ddab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:31 +0000
Subject: [PATCH 35/40] fix: a C++20 task finishing while its manager is reset
 by another thread leaves the manager

---
 include/libcotask/task_manager.h | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/include/libcotask/task_manager.h b/include/libcotask/task_manager.h
index 1a91e02..75d1345 100755
--- a/include/libcotask/task_manager.h
+++ b/include/libcotask/task_manager.h
@@ -1155,6 +1155,12 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task_manager<task_future<TVALUE, TPRIVATE_DAT
       return LIBCOPP_COPP_NAMESPACE_ID::COPP_EC_IN_RESET;
     }
 
+    return internal_remove_task(id, confirm_context);
+  }
+
+ private:
+  // A finished task leaves the manager even when another thread is resetting it
+  int internal_remove_task(id_type id, const task_context_base<TVALUE> *confirm_context) {
     task_type task_inst;
     {
 #  if !defined(LIBCOPP_DISABLE_ATOMIC_LOCK) || !(LIBCOPP_DISABLE_ATOMIC_LOCK)
@@ -1194,6 +1200,7 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task_manager<task_future<TVALUE, TPRIVATE_DAT
     return LIBCOPP_COPP_NAMESPACE_ID::COPP_EC_SUCCESS;
   }
 
+ public:
   /**
    * @brief find task by id
    * @param id task id
@@ -1242,7 +1249,7 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task_manager<task_future<TVALUE, TPRIVATE_DAT
 
       // if task is finished, remove it
       if (task_inst.is_exiting()) {
-        remove_task(id, task_inst);
+        internal_remove_task(id, task_inst.get_context().get());
       }
 
       return LIBCOPP_COPP_NAMESPACE_ID::COPP_EC_SUCCESS;
@@ -1513,7 +1520,7 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task_manager<task_future<TVALUE, TPRIVATE_DAT
       return;
     }
 
-    reinterpret_cast<self_type *>(self_ptr)->remove_task(task_inst.get_id(), &task_inst);
+    reinterpret_cast<self_type *>(self_ptr)->internal_remove_task(task_inst.get_id(), &task_inst);
   }
 #  endif
 
-- 
2.43.0


From 04a831aaeeb0faad888813c354623796e0d1af93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:31 +0000
Subject: [PATCH 36/40] fix: a C++20 task cannot be bound by two managers
 running in different threads

---
 include/libcotask/task_promise.h | 28 ++++++++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/include/libcotask/task_promise.h b/include/libcotask/task_promise.h
index 7229cb2..bb11f74 100644
--- a/include/libcotask/task_promise.h
+++ b/include/libcotask/task_promise.h
@@ -154,10 +154,18 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task_context_base {
 
 #  if defined(LIBCOTASK_MACRO_AUTO_CLEANUP_MANAGER) && LIBCOTASK_MACRO_AUTO_CLEANUP_MANAGER
   UTIL_FORCEINLINE void unbind_from_manager() {
-    void* manager_ptr = binding_manager_ptr_;
-    void (*manager_fn)(void*, task_context_base<value_type>&) = binding_manager_fn_;
-    binding_manager_ptr_ = nullptr;
-    binding_manager_fn_ = nullptr;
+    void* manager_ptr;
+    void (*manager_fn)(void*, task_context_base<value_type>&);
+    {
+#    if !defined(LIBCOPP_DISABLE_ATOMIC_LOCK) || !(LIBCOPP_DISABLE_ATOMIC_LOCK)
+      LIBCOPP_COPP_NAMESPACE_ID::util::lock::lock_holder<LIBCOPP_COPP_NAMESPACE_ID::util::lock::spin_lock> lock_guard{
+          binding_manager_lock_};
+#    endif
+      manager_ptr = binding_manager_ptr_;
+      manager_fn = binding_manager_fn_;
+      binding_manager_ptr_ = nullptr;
+      binding_manager_fn_ = nullptr;
+    }
 
     // finally, notify manager to cleanup(maybe start or resume with task's API but not task_manager's)
     if (nullptr != manager_ptr && nullptr != manager_fn) {
@@ -222,6 +230,10 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task_context_base {
     friend class LIBCOPP_COTASK_API_HEAD_ONLY task_manager;
     static bool setup_task_manager(task_context_base<value_type>& context, void* manager_ptr,
                                    void (*fn)(void*, task_context_base<value_type>&)) {
+#    if !defined(LIBCOPP_DISABLE_ATOMIC_LOCK) || !(LIBCOPP_DISABLE_ATOMIC_LOCK)
+      LIBCOPP_COPP_NAMESPACE_ID::util::lock::lock_holder<LIBCOPP_COPP_NAMESPACE_ID::util::lock::spin_lock> lock_guard{
+          context.binding_manager_lock_};
+#    endif
       if (context.binding_manager_ptr_ != nullptr) {
         return false;
       }
@@ -232,6 +244,10 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task_context_base {
     }
 
     static bool cleanup_task_manager(task_context_base<value_type>& context, void* manager_ptr) {
+#    if !defined(LIBCOPP_DISABLE_ATOMIC_LOCK) || !(LIBCOPP_DISABLE_ATOMIC_LOCK)
+      LIBCOPP_COPP_NAMESPACE_ID::util::lock::lock_holder<LIBCOPP_COPP_NAMESPACE_ID::util::lock::spin_lock> lock_guard{
+          context.binding_manager_lock_};
+#    endif
       if (context.binding_manager_ptr_ != manager_ptr) {
         return false;
       }
@@ -256,6 +272,10 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task_context_base {
   LIBCOPP_COPP_NAMESPACE_ID::util::lock::spin_lock internal_operation_lock_;
   handle_delegate current_handle_;
 #  if defined(LIBCOTASK_MACRO_AUTO_CLEANUP_MANAGER) && LIBCOTASK_MACRO_AUTO_CLEANUP_MANAGER
+#    if !defined(LIBCOPP_DISABLE_ATOMIC_LOCK) || !(LIBCOPP_DISABLE_ATOMIC_LOCK)
+  // different managers may try to bind the same task in different threads
+  LIBCOPP_COPP_NAMESPACE_ID::util::lock::spin_lock binding_manager_lock_;
+#    endif
   void* binding_manager_ptr_;
   void (*binding_manager_fn_)(void*, task_context_base<value_type>&);
 #  endif
-- 
2.43.0


From 48e2aee3ca0e05ea9156abefd9b66f816de89b05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:31 +0000
Subject: [PATCH 37/40] fix: adding a C++20 task that finishes meanwhile on
 another thread does not leave it in the manager

---
 include/libcotask/task_manager.h | 47 +++++++++++++++++++-------------
 1 file changed, 28 insertions(+), 19 deletions(-)

diff --git a/include/libcotask/task_manager.h b/include/libcotask/task_manager.h
index 75d1345..275dd6b 100755
--- a/include/libcotask/task_manager.h
+++ b/include/libcotask/task_manager.h
@@ -1049,36 +1049,45 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task_manager<task_future<TVALUE, TPRIVATE_DAT
     task_node.task_ = task;
     task_node.timer_node = task_timeout_timer_.end();
 
-    // lock before we will operator tasks_
+    id_type task_id = task.get_id();
+    {
+      // lock before we will operator tasks_
 #  if !defined(LIBCOPP_DISABLE_ATOMIC_LOCK) || !(LIBCOPP_DISABLE_ATOMIC_LOCK)
-    LIBCOPP_COPP_NAMESPACE_ID::util::lock::lock_holder<LIBCOPP_COPP_NAMESPACE_ID::util::lock::spin_lock> lock_guard{
-        action_lock_};
+      LIBCOPP_COPP_NAMESPACE_ID::util::lock::lock_holder<LIBCOPP_COPP_NAMESPACE_ID::util::lock::spin_lock> lock_guard{
+          action_lock_};
 #  endif
 
-    id_type task_id = task.get_id();
-    if (tasks_.end() != tasks_.find(task_id)) {
-      return LIBCOPP_COPP_NAMESPACE_ID::COPP_EC_ALREADY_EXIST;
-    }
+      if (tasks_.end() != tasks_.find(task_id)) {
+        return LIBCOPP_COPP_NAMESPACE_ID::COPP_EC_ALREADY_EXIST;
+      }
 
 #  if defined(LIBCOTASK_MACRO_AUTO_CLEANUP_MANAGER) && LIBCOTASK_MACRO_AUTO_CLEANUP_MANAGER
-    using task_manager_helper = typename task_type::task_manager_helper;
-    if (!task_manager_helper::setup_task_manager(*task.get_context(), reinterpret_cast<void *>(this),
-                                                 &task_cleanup_callback)) {
-      return LIBCOPP_COPP_NAMESPACE_ID::COPP_EC_TASK_ALREADY_IN_ANOTHER_MANAGER;
-    }
+      using task_manager_helper = typename task_type::task_manager_helper;
+      if (!task_manager_helper::setup_task_manager(*task.get_context(), reinterpret_cast<void *>(this),
+                                                   &task_cleanup_callback)) {
+        return LIBCOPP_COPP_NAMESPACE_ID::COPP_EC_TASK_ALREADY_IN_ANOTHER_MANAGER;
+      }
 #  endif
 
-    // try to insert to container
-    std::pair<typename container_type::iterator, bool> res = tasks_.insert(pair_type(task_id, task_node));
-    if (false == res.second) {
+      // try to insert to container
+      std::pair<typename container_type::iterator, bool> res = tasks_.insert(pair_type(task_id, task_node));
+      if (false == res.second) {
 #  if defined(LIBCOTASK_MACRO_AUTO_CLEANUP_MANAGER) && LIBCOTASK_MACRO_AUTO_CLEANUP_MANAGER
-      task_manager_helper::cleanup_task_manager(*task.get_context(), reinterpret_cast<void *>(this));
+        task_manager_helper::cleanup_task_manager(*task.get_context(), reinterpret_cast<void *>(this));
 #  endif
-      return LIBCOPP_COPP_NAMESPACE_ID::COPP_EC_EXTERNAL_INSERT_FAILED;
+        return LIBCOPP_COPP_NAMESPACE_ID::COPP_EC_EXTERNAL_INSERT_FAILED;
+      }
+
+      // add timeout controller
+      set_timeout_timer(res.first->second, timeout_sec, timeout_nsec);
+    }
+
+    // the task may finish on another thread before the insertion, nobody will remove it then
+    if (task.is_exiting()) {
+      internal_remove_task(task_id, task.get_context().get());
+      return LIBCOPP_COPP_NAMESPACE_ID::COPP_EC_TASK_IS_EXITING;
     }
 
-    // add timeout controller
-    set_timeout_timer(res.first->second, timeout_sec, timeout_nsec);
     return LIBCOPP_COPP_NAMESPACE_ID::COPP_EC_SUCCESS;
   }
 
-- 
2.43.0


From 3295a1f0c3745e6d5da61db3ec95db4c57517cf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:57 +0000
Subject: [PATCH 38/40] fix: never place a coroutine outside of its stack

The sizes of the private buffer and of the coroutine may wrap around when they are aligned and added, and an allocator
(attached memory, maximum stack size) may give less than required.  Both made create() construct the coroutine outside of
the stack instead of failing.
---
 .../libcopp/coroutine/coroutine_context_container.h  | 12 ++++++++++++
 include/libcotask/task.h                             |  3 ++-
 src/libcopp/coroutine/coroutine_context.cpp          |  5 +++++
 3 files changed, 19 insertions(+), 1 deletion(-)

diff --git a/include/libcopp/coroutine/coroutine_context_container.h b/include/libcopp/coroutine/coroutine_context_container.h
index 3d5a46c..9fc7610 100755
--- a/include/libcopp/coroutine/coroutine_context_container.h
+++ b/include/libcopp/coroutine/coroutine_context_container.h
@@ -75,6 +75,12 @@ class coroutine_context_container : public coroutine_context {
       stack_sz = stack_traits::default_size();
     }
 
+    // no stack has room for sizes like these, and they would wrap around when they are aligned and added
+    constexpr const size_t max_buffer_size = static_cast<size_t>(-1) / 4;
+    if (private_buffer_size > max_buffer_size || coroutine_size > max_buffer_size) {
+      return ret;
+    }
+
     // padding to sizeof size_t
     coroutine_size = align_address_size(coroutine_size);
     const size_t this_align_size = align_address_size(sizeof(this_type));
@@ -92,6 +98,12 @@ class coroutine_context_container : public coroutine_context {
       return ret;
     }
 
+    // the allocator may give less than required
+    if (callee_stack.size <= coroutine_size + private_buffer_size) {
+      alloc.deallocate(callee_stack);
+      return ret;
+    }
+
     // placement new
     unsigned char *this_addr = reinterpret_cast<unsigned char *>(callee_stack.sp);
     // stack down
diff --git a/include/libcotask/task.h b/include/libcotask/task.h
index 9a3813e..0385170 100755
--- a/include/libcotask/task.h
+++ b/include/libcotask/task.h
@@ -101,7 +101,8 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task : public impl::task_impl {
     size_t action_size = coroutine_type::align_address_size(sizeof(a_t));
     size_t task_size = coroutine_type::align_address_size(sizeof(self_type));
 
-    if (stack_size <= sizeof(impl::task_impl *) + private_buffer_size + action_size + task_size) {
+    if (stack_size <= private_buffer_size ||
+        stack_size - private_buffer_size <= sizeof(impl::task_impl *) + action_size + task_size) {
       return ptr_type();
     }
 
diff --git a/src/libcopp/coroutine/coroutine_context.cpp b/src/libcopp/coroutine/coroutine_context.cpp
index eb0c22d..706a591 100755
--- a/src/libcopp/coroutine/coroutine_context.cpp
+++ b/src/libcopp/coroutine/coroutine_context.cpp
@@ -299,6 +299,11 @@ LIBCOPP_COPP_API int coroutine_context::create(coroutine_context *p, callback_ty
     return COPP_EC_ARGS_ERROR;
   }
 
+  // these sizes must not wrap around when they are aligned and added
+  if (callee_stack.size <= private_buffer_size || callee_stack.size - private_buffer_size <= coroutine_size) {
+    return COPP_EC_ARGS_ERROR;
+  }
+
   size_t stack_offset = align_stack_size(private_buffer_size + coroutine_size);
   if (nullptr == callee_stack.sp || callee_stack.size <= stack_offset) {
     return COPP_EC_ARGS_ERROR;
-- 
2.43.0


From c79059c24d997c75a4d87399b89c2d20c4cbecdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:57 +0000
Subject: [PATCH 39/40] fix: leave room for the initial context on the stack of
 a coroutine

copp_make_fcontext_v2() writes below the end of the stack when less than the size of a context is left.
---
 src/libcopp/coroutine/coroutine_context.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/libcopp/coroutine/coroutine_context.cpp b/src/libcopp/coroutine/coroutine_context.cpp
index 706a591..3216b23 100755
--- a/src/libcopp/coroutine/coroutine_context.cpp
+++ b/src/libcopp/coroutine/coroutine_context.cpp
@@ -305,7 +305,9 @@ LIBCOPP_COPP_API int coroutine_context::create(coroutine_context *p, callback_ty
   }
 
   size_t stack_offset = align_stack_size(private_buffer_size + coroutine_size);
-  if (nullptr == callee_stack.sp || callee_stack.size <= stack_offset) {
+  // the initial context is saved on the stack too, it takes less than this on all platforms
+  constexpr const size_t initial_context_size = 512;
+  if (nullptr == callee_stack.sp || callee_stack.size <= stack_offset + initial_context_size) {
     return COPP_EC_ARGS_ERROR;
   }
 
-- 
2.43.0


From b16fb6caa81dd368a1d86cbd840fe42878568beb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:36:10 +0000
Subject: [PATCH 40/40] fix: compare-and-exchange of a volatile unsafe integer
 did not compile

---
 include/libcopp/utils/atomic_int_type.h | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/include/libcopp/utils/atomic_int_type.h b/include/libcopp/utils/atomic_int_type.h
index fadce5c..dcbed42 100755
--- a/include/libcopp/utils/atomic_int_type.h
+++ b/include/libcopp/utils/atomic_int_type.h
@@ -767,6 +767,15 @@ class LIBCOPP_COPP_API_HEAD_ONLY atomic_int_type<unsafe_int_type<Ty> > {
       return false;
     }
   }
+  inline bool cas(value_type &expected, value_type desired) volatile LIBCOPP_MACRO_NOEXCEPT {
+    COPP_LIKELY_IF (data_ == expected) {
+      data_ = desired;
+      return true;
+    } else {
+      expected = data_;
+      return false;
+    }
+  }
 
  public:
   inline bool compare_exchange_weak(value_type &expected, value_type desired,
-- 
2.43.0

