From 32793074295607a80359e935b11c84d9a47e7143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:11 +0000
Subject: [PATCH 01/53] fix: count a queued element before it can be popped

---
 altro/common/threadsafe_queue.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/altro/common/threadsafe_queue.hpp b/altro/common/threadsafe_queue.hpp
index 68b3be1..1e8bb65 100644
--- a/altro/common/threadsafe_queue.hpp
+++ b/altro/common/threadsafe_queue.hpp
@@ -109,9 +109,9 @@ void ThreadSafeQueue<T>::Push(T new_value) {
     // assign new tail
     Node* const new_tail = new_tail_node.get();
     tail_->next = std::move(new_tail_node);
+    ++(*size_);  // count the element before it can be popped, so the size never wraps around
     tail_ = new_tail;
   }
-  ++(*size_);
   data_cond_->notify_one();  // wake up 1 thread to process the new data
 }
 
-- 
2.43.0


From 45f2b364a11c92b20de6193529f5c70df81c4e49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:11 +0000
Subject: [PATCH 02/53] fix: clearing or move-assigning a queue no longer
 deadlocks

---
 altro/common/threadsafe_queue.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/altro/common/threadsafe_queue.hpp b/altro/common/threadsafe_queue.hpp
index 1e8bb65..115a4e6 100644
--- a/altro/common/threadsafe_queue.hpp
+++ b/altro/common/threadsafe_queue.hpp
@@ -88,7 +88,8 @@ ThreadSafeQueue<T>::ThreadSafeQueue(ThreadSafeQueue&& other) noexcept
 
 template <class T>
 ThreadSafeQueue<T>& ThreadSafeQueue<T>::operator=(ThreadSafeQueue<T>&& other) noexcept {
-  Clear(); // delete all data currently in queue safely
+  // The data currently in the queue is deleted with its nodes. Don't use Clear() since this queue
+  // may have been moved from.
   size_ = std::move(other.size_);
   head_mutex_ = std::move(other.head_mutex_);
   head_ = std::move(other.head_);
@@ -130,7 +131,9 @@ bool ThreadSafeQueue<T>::IsEmpty() {
 template <class T>
 void ThreadSafeQueue<T>::Clear() {
   std::lock_guard<std::mutex> head_lock(*head_mutex_);
-  while (!IsEmpty()) {
+  // NOTE: IsEmpty() can't be used here since it also locks the head
+  while (head_.get() != GetTail()) {
+    --(*size_);
     PopHead();
   }
 }
-- 
2.43.0


From 85a940b4339bf96b4603078ced512fe42fc4baf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:49 +0000
Subject: [PATCH 03/53] fix: destroying a queue with many elements no longer
 overflows the stack

---
 altro/common/threadsafe_queue.hpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/altro/common/threadsafe_queue.hpp b/altro/common/threadsafe_queue.hpp
index 115a4e6..c463652 100644
--- a/altro/common/threadsafe_queue.hpp
+++ b/altro/common/threadsafe_queue.hpp
@@ -31,6 +31,9 @@ class ThreadSafeQueue {
         tail_(head_.get()),
         data_cond_(std::make_unique<std::condition_variable>()) {}
 
+  // Delete the nodes one by one, since the recursive deletion of a long list overflows the stack
+  ~ThreadSafeQueue() { DeleteNodes(); }
+
   // Disallow copying
   ThreadSafeQueue(const ThreadSafeQueue& other) = delete;
   ThreadSafeQueue& operator=(const ThreadSafeQueue& other) = delete;
@@ -58,6 +61,12 @@ class ThreadSafeQueue {
     return old_head;
   }
 
+  void DeleteNodes() {
+    while (head_) {
+      head_ = std::move(head_->next);
+    }
+  }
+
   std::unique_ptr<Node> TryPopHead(T& value) {
     std::lock_guard<std::mutex> head_lock(*head_mutex_);
     if (head_.get() == GetTail()) {  // Empty queue
@@ -88,8 +97,9 @@ ThreadSafeQueue<T>::ThreadSafeQueue(ThreadSafeQueue&& other) noexcept
 
 template <class T>
 ThreadSafeQueue<T>& ThreadSafeQueue<T>::operator=(ThreadSafeQueue<T>&& other) noexcept {
-  // The data currently in the queue is deleted with its nodes. Don't use Clear() since this queue
-  // may have been moved from.
+  // Delete all data currently in the queue. Don't use Clear() since this queue may have been moved
+  // from.
+  DeleteNodes();
   size_ = std::move(other.size_);
   head_mutex_ = std::move(other.head_mutex_);
   head_ = std::move(other.head_);
-- 
2.43.0


From 011e43090a737aaae9d4962766a97c69b252ed3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:02 +0000
Subject: [PATCH 04/53] fix: join the threads already created when launching
 the pool fails

---
 altro/common/threadpool.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/altro/common/threadpool.cpp b/altro/common/threadpool.cpp
index 3dd6fc8..cd22ac4 100644
--- a/altro/common/threadpool.cpp
+++ b/altro/common/threadpool.cpp
@@ -52,7 +52,7 @@ void ThreadPool::LaunchThreads(int nthreads) {
       threads_.emplace_back(kernel);
     }
   } catch (...) {
-    is_running_ = false;
+    StopThreads();  // join the threads that were already created
     throw;
   }
 }
-- 
2.43.0


From e0fef7ea0689ed57dc9be544f65ddc4321d8f012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:02 +0000
Subject: [PATCH 05/53] fix: stop a running pool before another pool is
 move-assigned to it

---
 altro/common/threadpool.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/altro/common/threadpool.cpp b/altro/common/threadpool.cpp
index cd22ac4..3850ab2 100644
--- a/altro/common/threadpool.cpp
+++ b/altro/common/threadpool.cpp
@@ -20,6 +20,9 @@ ThreadPool::ThreadPool(ThreadPool&& other) noexcept
 
 ThreadPool& ThreadPool::operator=(ThreadPool&& other) noexcept {
   ALTRO_ASSERT(!other.IsRunning(), "Cannot move a pool while it's running");
+  if (IsRunning()) {
+    StopThreads();  // the threads of this pool must be joined before they're replaced
+  }
   is_running_ = static_cast<bool>(other.is_running_);
   threads_ = std::move(other.threads_);
   futures_ = std::move(other.futures_);
-- 
2.43.0


From c2200de4217de0d57999954fd3e5b32421d2f985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:11 +0000
Subject: [PATCH 06/53] fix: validate and use the task assignment given by the
 user

SetTaskAssignment checked the previous assignment (which may be empty) instead of
the given one, was ignored while the thread pool was running, and was lost when the
solver was moved.
---
 altro/ilqr/ilqr.hpp | 43 +++++++++++++++++++++++++++----------------
 1 file changed, 27 insertions(+), 16 deletions(-)

diff --git a/altro/ilqr/ilqr.hpp b/altro/ilqr/ilqr.hpp
index 1425ea3..b44f4b3 100644
--- a/altro/ilqr/ilqr.hpp
+++ b/altro/ilqr/ilqr.hpp
@@ -68,7 +68,9 @@ class iLQR {
                                 drho_(other.drho_),
                                 deltaV_(std::move(other.deltaV_)),
                                 is_initial_state_set(other.is_initial_state_set),
-                                max_violation_callback_(std::move(other.max_violation_callback_)) {}
+                                custom_work_assignment_(other.custom_work_assignment_),
+                                max_violation_callback_(std::move(other.max_violation_callback_)),
+                                work_inds_(std::move(other.work_inds_)) {}
 
   /**
    * @brief Copy the data from a Problem class into the iLQR solver
@@ -183,6 +185,7 @@ class iLQR {
   std::vector<int>& GetTaskAssignment() {
     if (ShouldRedoTaskAssignment()) {
       DefaultTaskAssignment();
+      CreateTasks();
     }
     return work_inds_;
   }
@@ -256,12 +259,12 @@ class iLQR {
    * interval [`inds[i]`, `inds[i+1]`).
    */
   void SetTaskAssignment(std::vector<int> inds) {
-    ALTRO_ASSERT(work_inds_.back() == NumSegments() + 1,
+    ALTRO_ASSERT(inds.size() >= 2, "Work inds must have at least 2 elements.");
+    ALTRO_ASSERT(inds[0] == 0, "Work inds should start with a 0.");
+    ALTRO_ASSERT(inds.back() == NumSegments() + 1,
                  "Work inds should include the terminal index.");
-    ALTRO_ASSERT(work_inds_[0] == 0, "Work inds should start with a 0.");
-    ALTRO_ASSERT(work_inds_.size() >= 2, "Work inds must have at least 2 elements.");
     bool is_sorted = true;
-    for (int i = 1; i < inds.size(); ++i) {
+    for (size_t i = 1; i < inds.size(); ++i) {
       if (inds[i] <= inds[i - 1]) {
         is_sorted = false;
       }
@@ -269,6 +272,7 @@ class iLQR {
     ALTRO_ASSERT(is_sorted, "Work inds must be a set of strictly increasing integers.");
     work_inds_ = std::move(inds);
     custom_work_assignment_ = true;
+    CreateTasks();
   }
 
   /***************************** Algorithm **************************************/
@@ -718,17 +722,9 @@ class iLQR {
       if (pool_.IsRunning()) {
         pool_.StopThreads();
       }
-      tasks_.clear();
-
-      // Create tasks
-      std::vector<int>& work_inds = GetTaskAssignment();
-      int ntasks = NumTasks();
-      for (int i = 0; i < ntasks; ++i) {
-        int start = work_inds[i];
-        int stop = work_inds[i + 1];
-        auto expansion_block = [this, start, stop]() { UpdateExpansionsBlock(start, stop); };
-        tasks_.emplace_back(std::move(expansion_block));
-      }
+
+      GetTaskAssignment();  // make sure the assignment is current
+      CreateTasks();
 
       // Start the pool
       if (nthreads > 1) {
@@ -737,6 +733,21 @@ class iLQR {
     }
   }
 
+  /**
+   * @brief Create the tasks that process the knot points in each interval of the current
+   * task assignment.
+   *
+   */
+  void CreateTasks() {
+    tasks_.clear();
+    for (int i = 0; i < NumTasks(); ++i) {
+      int start = work_inds_[i];
+      int stop = work_inds_[i + 1];
+      auto expansion_block = [this, start, stop]() { UpdateExpansionsBlock(start, stop); };
+      tasks_.emplace_back(std::move(expansion_block));
+    }
+  }
+
   void DefaultTaskAssignment() {
     int nthreads = GetOptions().NumThreads();
     int ntasks = nthreads * GetOptions().tasks_per_thread;
-- 
2.43.0


From 51efa888527e0cf67418c58cecce581a583021c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:46 +0000
Subject: [PATCH 07/53] fix: default task assignment always covers the whole
 horizon

Accumulating the step in floating point could miss the terminal index, and asking
for more tasks than segments gave repeated indices (empty tasks).
---
 altro/ilqr/ilqr.hpp | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/altro/ilqr/ilqr.hpp b/altro/ilqr/ilqr.hpp
index b44f4b3..0b8c254 100644
--- a/altro/ilqr/ilqr.hpp
+++ b/altro/ilqr/ilqr.hpp
@@ -702,8 +702,7 @@ class iLQR {
    */
   bool ShouldRedoTaskAssignment() const {
     bool is_custom = custom_work_assignment_;
-    int tasks_per_thread = GetOptions().tasks_per_thread;
-    bool has_expected_number_of_tasks = NumTasks() == GetOptions().NumThreads() * tasks_per_thread;
+    bool has_expected_number_of_tasks = NumTasks() == DefaultNumTasks();
     bool keep_assignment = is_custom || has_expected_number_of_tasks;
     return !keep_assignment;
   }
@@ -733,6 +732,17 @@ class iLQR {
     }
   }
 
+  /**
+   * @brief Number of tasks created by default
+   *
+   * Limited by the number of segments, since every task needs at least one knot point.
+   *
+   */
+  int DefaultNumTasks() const {
+    int ntasks = GetOptions().NumThreads() * GetOptions().tasks_per_thread;
+    return std::max(std::min(ntasks, NumSegments()), 1);
+  }
+
   /**
    * @brief Create the tasks that process the knot points in each interval of the current
    * task assignment.
@@ -749,12 +759,11 @@ class iLQR {
   }
 
   void DefaultTaskAssignment() {
-    int nthreads = GetOptions().NumThreads();
-    int ntasks = nthreads * GetOptions().tasks_per_thread;
+    int ntasks = DefaultNumTasks();
     double step = NumSegments() / static_cast<double>(ntasks);
     work_inds_.clear();
-    for (double val = 0.0; val <= NumSegments(); val += step) {
-      work_inds_.emplace_back(static_cast<int>(round(val)));
+    for (int i = 0; i <= ntasks; ++i) {
+      work_inds_.emplace_back(static_cast<int>(round(i * step)));
     }
     ALTRO_ASSERT(work_inds_.back() == NumSegments(),
                  "Work inds should include the terminal index.");
-- 
2.43.0


From 67878f4d25add25dcf49a712e46427fb10ce17fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:16:35 +0000
Subject: [PATCH 08/53] fix: moved or copied solver statistics no longer refer
 to the original object

---
 altro/common/solver_stats.cpp | 31 ++++++++++++++++---------------
 altro/common/solver_stats.hpp |  9 +++++----
 2 files changed, 21 insertions(+), 19 deletions(-)

diff --git a/altro/common/solver_stats.cpp b/altro/common/solver_stats.cpp
index 0094f8b..9d3d278 100644
--- a/altro/common/solver_stats.cpp
+++ b/altro/common/solver_stats.cpp
@@ -9,8 +9,8 @@
 namespace altro {
 
 template <>
-void SolverStats::SetPtr<double>(const LogEntry& entry, std::vector<double>& data) {
-  floats_[entry.GetTitle()] = &data;
+void SolverStats::SetPtr<double>(const LogEntry& entry, std::vector<double> SolverStats::*data) {
+  floats_[entry.GetTitle()] = data;
 }
 
 void SolverStats::SetTolerances(const double& cost, const double& viol, const double& grad) {
@@ -24,7 +24,7 @@ void SolverStats::SetTolerances(const double& cost, const double& viol, const do
 
 void SolverStats::SetCapacity(int n) {
   for (auto kv : floats_) {
-    kv.second->reserve(n);
+    (this->*(kv.second)).reserve(n);
   }
 }
 
@@ -35,7 +35,7 @@ void SolverStats::Reset() {
   iterations_outer = 0;
   len_ = 0;
   for (auto kv : floats_) {
-    kv.second->clear();
+    (this->*(kv.second)).clear();
   }
   logger_.Clear();
   
@@ -54,13 +54,14 @@ void SolverStats::Reset() {
 void SolverStats::NewIteration() {
   len_++;
   for (auto& kv : floats_) {
-    kv.second->resize(len_);
+    std::vector<double>& data = this->*(kv.second);
+    data.resize(len_);
 
     // Copy data from previous iteration
     if (len_ > 1) {
-      kv.second->back() = kv.second->rbegin()[1];
+      data.back() = data.rbegin()[1];
     } else {
-      kv.second->back() = 0.0;
+      data.back() = 0.0;
     }
   }
 }
@@ -86,30 +87,30 @@ void SolverStats::DefaultLogger() {
       .SetName("iterations_outer")
       .SetLevel(LogLevel::kOuter)
       .SetWidth(8);  // NOLINT(readability-magic-numbers)
-  SetPtr(logger_.AddEntry(-1, "cost", "{:>.4g}"), cost);
-  SetPtr(logger_.AddEntry(-1, "viol", "{:>.3e}").SetName("constraint_violation"), violations);
-  SetPtr(logger_.AddEntry(-1, "dJ", "{:>.2e}").SetName("cost_improvement"), cost_decrease);
-  SetPtr(logger_.AddEntry(-1, "grad", "{:>.2e}").SetName("gradient").SetLevel(LogLevel::kOuterDebug), gradient);
+  SetPtr(logger_.AddEntry(-1, "cost", "{:>.4g}"), &SolverStats::cost);
+  SetPtr(logger_.AddEntry(-1, "viol", "{:>.3e}").SetName("constraint_violation"), &SolverStats::violations);
+  SetPtr(logger_.AddEntry(-1, "dJ", "{:>.2e}").SetName("cost_improvement"), &SolverStats::cost_decrease);
+  SetPtr(logger_.AddEntry(-1, "grad", "{:>.2e}").SetName("gradient").SetLevel(LogLevel::kOuterDebug), &SolverStats::gradient);
   SetPtr(logger_.AddEntry(-1, "alpha", "{:>.2f}")
              .SetName("line_search_step_length")
              .SetLevel(LogLevel::kInner)
              .SetWidth(6),  // NOLINT(readability-magic-numbers)
-         alpha);
+         &SolverStats::alpha);
   SetPtr(logger_.AddEntry(-1, "reg", "{:>.1e}")
              .SetName("regularization")
              .SetLevel(LogLevel::kInnerDebug)
              .SetWidth(7),  // NOLINT(readability-magic-numbers)
-         regularization);
+         &SolverStats::regularization);
   SetPtr(logger_.AddEntry(-1, "z", "{:>.3f}")
              .SetName("cost_improvement_ratio")
              .SetLevel(LogLevel::kInnerDebug)
              .SetWidth(5),  // NOLINT(readability-magic-numbers)
-         improvement_ratio);
+         &SolverStats::improvement_ratio);
   SetPtr(logger_.AddEntry(-1, "pen", "{:>.1e}")
              .SetName("max_penalty")
              .SetLevel(LogLevel::kDebug)
              .SetWidth(7),  // NOLINT(readability-magic-numbers)
-         max_penalty);
+         &SolverStats::max_penalty);
   logger_.SetHeaderColor(fmt::color::yellow);
 }
 
diff --git a/altro/common/solver_stats.hpp b/altro/common/solver_stats.hpp
index 68d1dd8..dbae0dd 100644
--- a/altro/common/solver_stats.hpp
+++ b/altro/common/solver_stats.hpp
@@ -167,10 +167,11 @@ class SolverStats {
    * 
    * @tparam T Data type of the entry field (doubles or ints).
    * @param entry Entry field to which the data vector is to be associated.
-   * @param data One of the publically-accessible vectors stored in this class.
+   * @param data One of the publically-accessible vectors stored in this class. Stored as a pointer
+   * to the member, so that it stays valid when the statistics are copied or moved.
    */
   template <class T>
-  void SetPtr(const LogEntry& entry, std::vector<T>& data) {
+  void SetPtr(const LogEntry& entry, std::vector<T> SolverStats::*data) {
     ALTRO_UNUSED(entry);
     ALTRO_UNUSED(data);
   }
@@ -181,7 +182,7 @@ class SolverStats {
    */
   void DefaultLogger();
 
-  std::unordered_map<std::string, std::vector<double>*> floats_;
+  std::unordered_map<std::string, std::vector<double> SolverStats::*> floats_;
 
   int len_ = 0;
   SolverLogger logger_;
@@ -198,7 +199,7 @@ void SolverStats::SetData(const std::string& title, T value) {
   // Search for the title
   auto search_float = floats_.find(title);
   if (search_float != floats_.end()) {
-    search_float->second->back() = value;
+    (this->*(search_float->second)).back() = value;
   }
 }
 
-- 
2.43.0


From 16cd939af833d0503dd4f38d3742b16e8d4b46ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:16:35 +0000
Subject: [PATCH 09/53] fix: a copied solver logger no longer refers to the
 titles of the original

---
 altro/common/solver_logger.cpp | 8 ++++----
 altro/common/solver_logger.hpp | 8 ++------
 2 files changed, 6 insertions(+), 10 deletions(-)

diff --git a/altro/common/solver_logger.cpp b/altro/common/solver_logger.cpp
index 0113ac6..75879a4 100644
--- a/altro/common/solver_logger.cpp
+++ b/altro/common/solver_logger.cpp
@@ -11,8 +11,8 @@ void SolverLogger::PrintHeader() {
   }
   int total_width = 0;
   bool any_active = false;
-  for (const std::string* title : order_) {
-    LogEntry& entry = entries_[*title];
+  for (const std::string& title : order_) {
+    LogEntry& entry = entries_[title];
     entry.PrintHeader(cur_level_, header_color_);
     if (entry.IsActive(cur_level_)) {
       any_active = true;
@@ -31,8 +31,8 @@ void SolverLogger::PrintData() {
     return;
   }
   bool any_active = false;
-  for (const std::string* title : order_) {
-    LogEntry& entry = entries_[*title];
+  for (const std::string& title : order_) {
+    LogEntry& entry = entries_[title];
     entry.Print(cur_level_);
     if (entry.IsActive(cur_level_)) {
       any_active = true;
diff --git a/altro/common/solver_logger.hpp b/altro/common/solver_logger.hpp
index cac8e1c..88683aa 100644
--- a/altro/common/solver_logger.hpp
+++ b/altro/common/solver_logger.hpp
@@ -168,7 +168,7 @@ class SolverLogger {
   int frequency_ = kDefaultFrequency;        // frequency of the header print
   int count_ = 0;                            // number of prints since header
   std::unordered_map<std::string, LogEntry> entries_;
-  std::vector<const std::string*> order_;
+  std::vector<std::string> order_;  // titles, in the order they're printed
   fmt::color header_color_ = fmt::color::white;
 };
 
@@ -189,10 +189,6 @@ LogEntry& SolverLogger::AddEntry(const int& col, Args... args) {
   const std::string title = entry.GetTitle();
   auto insert = entries_.emplace(std::make_pair(title, std::move(entry)));
 
-  // Get a pointer to the title string used in the map
-  // insert.first is an iterator over key-value pairs for the map entries_
-  const std::string* title_ptr = &(insert.first->first);
-
   // Specify the output order
   auto it = order_.begin();
   if (col < 0) {
@@ -201,7 +197,7 @@ LogEntry& SolverLogger::AddEntry(const int& col, Args... args) {
   } else {
     it += col;
   }
-  order_.insert(it, title_ptr);
+  order_.insert(it, title);
 
   return insert.first->second;
 }
-- 
2.43.0


From 5bcf7d073498fbff3333db64267cda351e60236c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:17:43 +0000
Subject: [PATCH 10/53] fix: repeated iLQR solves start with cleared statistics

---
 altro/augmented_lagrangian/al_solver.hpp |  1 +
 altro/common/solver_stats.cpp            |  8 ++++++--
 altro/common/solver_stats.hpp            |  7 +++++++
 altro/ilqr/ilqr.hpp                      | 16 ++++++++++++++++
 4 files changed, 30 insertions(+), 2 deletions(-)

diff --git a/altro/augmented_lagrangian/al_solver.hpp b/altro/augmented_lagrangian/al_solver.hpp
index 7e90171..6f0b20f 100644
--- a/altro/augmented_lagrangian/al_solver.hpp
+++ b/altro/augmented_lagrangian/al_solver.hpp
@@ -246,6 +246,7 @@ void AugmentedLagrangianiLQR<n, m>::InitializeFromProblem(const problem::Problem
   ilqr_solver_.CopyFromProblem(prob_al, 0, prob.NumSegments() + 1);
   auto max_violation_callback = [this]() -> double { return this->GetMaxViolation(); };
   ilqr_solver_.SetConstraintCallback(max_violation_callback);
+  ilqr_solver_.SetAccumulateStats(true);  // they're reset in Init()
 }
 
 template <int n, int m>
diff --git a/altro/common/solver_stats.cpp b/altro/common/solver_stats.cpp
index 9d3d278..10c0cd6 100644
--- a/altro/common/solver_stats.cpp
+++ b/altro/common/solver_stats.cpp
@@ -28,7 +28,7 @@ void SolverStats::SetCapacity(int n) {
   }
 }
 
-void SolverStats::Reset() {
+void SolverStats::ClearData() {
   initial_cost = 0.0;
   iterations_inner = 0;
   iterations_total = 0;
@@ -38,7 +38,11 @@ void SolverStats::Reset() {
     (this->*(kv.second)).clear();
   }
   logger_.Clear();
-  
+}
+
+void SolverStats::Reset() {
+  ClearData();
+
   // Pull info from options
   SetCapacity(opts_.max_iterations_total);
   SetVerbosity(opts_.verbose);
diff --git a/altro/common/solver_stats.hpp b/altro/common/solver_stats.hpp
index dbae0dd..18be55c 100644
--- a/altro/common/solver_stats.hpp
+++ b/altro/common/solver_stats.hpp
@@ -85,6 +85,13 @@ class SolverStats {
    */
   void Reset();
 
+  /**
+   * @brief Clear the recorded data (all the vectors and counters), keeping the options and
+   * the configuration of the output.
+   *
+   */
+  void ClearData();
+
   /**
    * @brief Set the verbosity level for the console logger
    * 
diff --git a/altro/ilqr/ilqr.hpp b/altro/ilqr/ilqr.hpp
index 0b8c254..ec360e3 100644
--- a/altro/ilqr/ilqr.hpp
+++ b/altro/ilqr/ilqr.hpp
@@ -69,6 +69,7 @@ class iLQR {
                                 deltaV_(std::move(other.deltaV_)),
                                 is_initial_state_set(other.is_initial_state_set),
                                 custom_work_assignment_(other.custom_work_assignment_),
+                                accumulate_stats_(other.accumulate_stats_),
                                 max_violation_callback_(std::move(other.max_violation_callback_)),
                                 work_inds_(std::move(other.work_inds_)) {}
 
@@ -241,6 +242,16 @@ class iLQR {
     max_violation_callback_ = max_violation;
   }
 
+  /**
+   * @brief Keep adding to the statistics of the previous solve instead of starting over.
+   *
+   * Used when the solver is called repeatedly as part of another solver, which is then
+   * responsible for resetting the statistics.
+   *
+   * @param flag True if the statistics should be kept. Default is false.
+   */
+  void SetAccumulateStats(const bool flag) { accumulate_stats_ = flag; }
+
   /**
    * @brief Set the division of knot points indices into parallelizable tasks.
    *
@@ -632,6 +643,9 @@ class iLQR {
    */
   void SolveSetup() {
     Stopwatch sw = stats_.GetTimer()->Start("init");
+    if (!accumulate_stats_) {
+      stats_.ClearData();
+    }
     stats_.iterations_inner = 0;
     stats_.SetVerbosity(GetOptions().verbose);
 
@@ -826,6 +840,8 @@ class iLQR {
   bool is_initial_state_set = false;
   bool custom_work_assignment_ = false;  // Has user assigned a custom task assignment
 
+  bool accumulate_stats_ = false;  // Keep the statistics of the previous solves
+
   std::function<double()> max_violation_callback_ = []() { return 0.0; };
   std::vector<std::function<void()>> tasks_;
   std::vector<int> work_inds_;
-- 
2.43.0


From c36d393fdddef9e9876efd2d8a9455c76890f014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:17:59 +0000
Subject: [PATCH 11/53] fix: a moved augmented Lagrangian solver no longer
 refers to the original solver

---
 altro/augmented_lagrangian/al_solver.hpp | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/altro/augmented_lagrangian/al_solver.hpp b/altro/augmented_lagrangian/al_solver.hpp
index 6f0b20f..d5373fb 100644
--- a/altro/augmented_lagrangian/al_solver.hpp
+++ b/altro/augmented_lagrangian/al_solver.hpp
@@ -35,6 +35,16 @@ class AugmentedLagrangianiLQR {
   explicit AugmentedLagrangianiLQR(int N) : ilqr_solver_(N), costs_(), max_violation_(N + 1) {}
   explicit AugmentedLagrangianiLQR(const problem::Problem& prob);
 
+  AugmentedLagrangianiLQR(AugmentedLagrangianiLQR&& other) noexcept
+      : ilqr_solver_(std::move(other.ilqr_solver_)),
+        costs_(std::move(other.costs_)),
+        status_(other.status_),
+        max_violation_(std::move(other.max_violation_)) {
+    if (!costs_.empty()) {
+      SetViolationCallback();  // the callback of the other solver refers to the other solver
+    }
+  }
+
   void InitializeFromProblem(const problem::Problem& prob);
 
   /***************************** Getters **************************************/
@@ -215,6 +225,11 @@ class AugmentedLagrangianiLQR {
   void ResetDualVariables();
 
  private:
+  void SetViolationCallback() {
+    auto max_violation_callback = [this]() -> double { return this->GetMaxViolation(); };
+    ilqr_solver_.SetConstraintCallback(max_violation_callback);
+  }
+
   Stopwatch CreateTimer(const std::string& name) { return GetStats().GetTimer()->Start(name); }
 
   ilqr::iLQR<n, m> ilqr_solver_;
@@ -244,8 +259,7 @@ void AugmentedLagrangianiLQR<n, m>::InitializeFromProblem(const problem::Problem
                            prob.NumSegments(), costs_.size()));
   // ilqr_solver_.InitializeFromProblem(prob_al);
   ilqr_solver_.CopyFromProblem(prob_al, 0, prob.NumSegments() + 1);
-  auto max_violation_callback = [this]() -> double { return this->GetMaxViolation(); };
-  ilqr_solver_.SetConstraintCallback(max_violation_callback);
+  SetViolationCallback();
   ilqr_solver_.SetAccumulateStats(true);  // they're reset in Init()
 }
 
-- 
2.43.0


From bbe67102b264abfd82673ea854295ca269bb5fce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:19 +0000
Subject: [PATCH 12/53] fix: solving keeps the terminal time step set after
 linking the trajectory

---
 altro/ilqr/ilqr.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/altro/ilqr/ilqr.hpp b/altro/ilqr/ilqr.hpp
index ec360e3..7825a6f 100644
--- a/altro/ilqr/ilqr.hpp
+++ b/altro/ilqr/ilqr.hpp
@@ -657,6 +657,7 @@ class iLQR {
         Zbar_->SetTime(k, Z_->GetTime(k));
       }
       Zbar_->SetTime(N_, Z_->GetTime(N_));
+      Zbar_->SetStep(N_, Z_->GetStep(N_));
     }
 
     ResetInternalVariables();
-- 
2.43.0


From 4b64fa30a9b975d6e594b883eb8dbb14180a6400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:06 +0000
Subject: [PATCH 13/53] fix: MakeTrajectory links the trajectory it makes to
 the solver, for any size

---
 altro/ilqr/ilqr.hpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/altro/ilqr/ilqr.hpp b/altro/ilqr/ilqr.hpp
index 7825a6f..01cabad 100644
--- a/altro/ilqr/ilqr.hpp
+++ b/altro/ilqr/ilqr.hpp
@@ -218,8 +218,15 @@ class iLQR {
    * @return std::shared_ptr<Trajectory<n, m>> A new zero-initialized trajectory.
    */
   std::shared_ptr<Trajectory<n, m>> MakeTrajectory(float dt) {
-    Z_ = std::make_shared<Trajectory<n, m>>(NumSegments());
-    Z_->SetUniformStep(dt);
+    ALTRO_ASSERT(static_cast<int>(knotpoints_.size()) == NumSegments() + 1,
+                 "The solver must be initialized from a problem to make a trajectory.");
+    std::vector<KnotPoint<n, m>> zs;
+    for (const auto& kpf : knotpoints_) {
+      zs.emplace_back(kpf->StateDimension(), kpf->ControlDimension());
+    }
+    auto Z = std::make_shared<Trajectory<n, m>>(std::move(zs));
+    Z->SetUniformStep(dt);
+    SetTrajectory(std::move(Z));
     return Z_;
   }
 
-- 
2.43.0


From 4b063683937e8d4d068ae049bf87262b716a8967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:06 +0000
Subject: [PATCH 14/53] fix: a failed line search records the cost of the
 trajectory that is kept

---
 altro/ilqr/ilqr.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/altro/ilqr/ilqr.hpp b/altro/ilqr/ilqr.hpp
index 01cabad..f72b209 100644
--- a/altro/ilqr/ilqr.hpp
+++ b/altro/ilqr/ilqr.hpp
@@ -570,7 +570,9 @@ class iLQR {
       (*Z_) = (*Zbar_);
     } else {
       IncreaseRegularization();
-      J = J0;
+      // Restore the costs (and constraint values) to those of the unchanged trajectory
+      J = Cost();
+      stats_.Log("cost", J);
     }
 
     if (J > J0) {
-- 
2.43.0


From 6c765b1fa45cae1a05d2fedad57c6375f63af569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:06 +0000
Subject: [PATCH 15/53] fix: restarting the backward pass restarts the expected
 cost decrease

---
 altro/ilqr/ilqr.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/altro/ilqr/ilqr.hpp b/altro/ilqr/ilqr.hpp
index f72b209..a1b674e 100644
--- a/altro/ilqr/ilqr.hpp
+++ b/altro/ilqr/ilqr.hpp
@@ -416,11 +416,11 @@ class iLQR {
     Eigen::Matrix<double, n, 1>* Sx_prev = &(knotpoints_[N_]->GetCostToGoGradient());
 
     int max_reg_count = 0;
-    deltaV_[0] = 0.0;
-    deltaV_[1] = 0.0;
 
     bool repeat_backwardpass = true;
     while (repeat_backwardpass) {
+      deltaV_[0] = 0.0;
+      deltaV_[1] = 0.0;
       for (int k = N_ - 1; k >= 0; --k) {
         // TODO(bjackson)[SW-16103] Create a test that checks this
         knotpoints_[k]->CalcActionValueExpansion(*Sxx_prev, *Sx_prev);
-- 
2.43.0


From e83cb99ed2a58803307b871c5f2ff25bb21408e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:06 +0000
Subject: [PATCH 16/53] fix: a failed backward pass ends the solve with its own
 status

---
 altro/ilqr/ilqr.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/altro/ilqr/ilqr.hpp b/altro/ilqr/ilqr.hpp
index a1b674e..4bbaeba 100644
--- a/altro/ilqr/ilqr.hpp
+++ b/altro/ilqr/ilqr.hpp
@@ -322,6 +322,9 @@ class iLQR {
     for (int iter = 0; iter < GetOptions().max_iterations_inner; ++iter) {
       UpdateExpansions();
       BackwardPass();
+      if (status_ == SolverStatus::kBackwardPassRegularizationFailed) {
+        break;  // there is no valid policy to simulate forward
+      }
       ForwardPass();
       UpdateConvergenceStatistics();
 
-- 
2.43.0


From 4e0c8eb6819e3b4f9e1767662988336e084ef74a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:20 +0000
Subject: [PATCH 17/53] fix: the backward pass ends when the regularization
 cannot be increased

---
 altro/ilqr/ilqr.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/altro/ilqr/ilqr.hpp b/altro/ilqr/ilqr.hpp
index 4bbaeba..b0de6aa 100644
--- a/altro/ilqr/ilqr.hpp
+++ b/altro/ilqr/ilqr.hpp
@@ -433,14 +433,15 @@ class iLQR {
         // Handle solve failure
         if (info != Eigen::Success) {
 
+          const double rho_prev = rho_;
           IncreaseRegularization();
 
           // Reset the cost-to-go pointers to the terminal expansion
           Sxx_prev = &(knotpoints_[N_]->GetCostToGoHessian());
           Sx_prev = &(knotpoints_[N_]->GetCostToGoGradient());
 
-          // Check if we're at max regularization
-          if (rho_ >= GetOptions().bp_reg_max) {
+          // Check if we're at max regularization, or can't increase it for another reason
+          if (rho_ >= GetOptions().bp_reg_max || rho_ <= rho_prev) {
             max_reg_count++;
           }
 
-- 
2.43.0


From 77a0d4e973f06617ae806acd755bfe45ea6e23f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:49 +0000
Subject: [PATCH 18/53] fix: an inequality constraint that is not a number no
 longer counts as satisfied

---
 altro/constraints/constraint.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/altro/constraints/constraint.hpp b/altro/constraints/constraint.hpp
index 5eeabf1..4f95aac 100644
--- a/altro/constraints/constraint.hpp
+++ b/altro/constraints/constraint.hpp
@@ -103,7 +103,7 @@ class NegativeOrthant {
   static void Projection(const VectorXdRef& x, Eigen::Ref<VectorXd> x_proj) {
     ALTRO_ASSERT(x.size() == x_proj.size(), "x and x_proj must be the same size");
     for (int i = 0; i < x.size(); ++i) {
-      x_proj(i) = std::min(0.0, x(i));
+      x_proj(i) = x(i) > 0 ? 0.0 : x(i);  // a NaN must not be projected to a feasible value
     }
   }
   static void Jacobian(const VectorXdRef& x, Eigen::Ref<MatrixXd> jac) {
-- 
2.43.0


From a7024995f73fb9e06c8b8dd9f88b70d9aabf333f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:47 +0000
Subject: [PATCH 19/53] fix: the constraint violation of several elements is
 not a number if any of them is

---
 altro/augmented_lagrangian/al_cost.hpp   |  5 +++--
 altro/augmented_lagrangian/al_solver.hpp |  2 +-
 altro/constraints/constraint_values.hpp  | 17 ++++++++++++++++-
 3 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/altro/augmented_lagrangian/al_cost.hpp b/altro/augmented_lagrangian/al_cost.hpp
index d702796..e24598e 100644
--- a/altro/augmented_lagrangian/al_cost.hpp
+++ b/altro/augmented_lagrangian/al_cost.hpp
@@ -348,8 +348,9 @@ class ALCost : public problem::CostFunction {
     for (size_t i = 0; i < ineq_.size(); ++i) {
       ineq_tmp_(i) = ineq_[i]->template MaxViolation<p>();
     }
-    Eigen::Vector2d tmp(eq_tmp_.template lpNorm<p>(), ineq_tmp_.template lpNorm<p>());
-    return tmp.template lpNorm<p>();
+    Eigen::Vector2d tmp(constraints::ViolationNorm<p>(eq_tmp_),
+                        constraints::ViolationNorm<p>(ineq_tmp_));
+    return constraints::ViolationNorm<p>(tmp);
   }
 
   /**
diff --git a/altro/augmented_lagrangian/al_solver.hpp b/altro/augmented_lagrangian/al_solver.hpp
index d5373fb..2322bf6 100644
--- a/altro/augmented_lagrangian/al_solver.hpp
+++ b/altro/augmented_lagrangian/al_solver.hpp
@@ -435,7 +435,7 @@ double AugmentedLagrangianiLQR<n, m>::GetMaxViolation() {
   for (int k = 0; k <= NumSegments(); ++k) {
     max_violation_(k) = costs_[k]->template MaxViolation<p>();
   }
-  return max_violation_.template lpNorm<p>();
+  return constraints::ViolationNorm<p>(max_violation_);
 }
 
 template <int n, int m>
diff --git a/altro/constraints/constraint_values.hpp b/altro/constraints/constraint_values.hpp
index bc37072..4126e79 100644
--- a/altro/constraints/constraint_values.hpp
+++ b/altro/constraints/constraint_values.hpp
@@ -3,6 +3,7 @@
 #pragma once
 #include <fmt/format.h>
 #include <fmt/ostream.h>
+#include <limits>
 
 #include "altro/common/state_control_sized.hpp"
 #include "altro/constraints/constraint.hpp"
@@ -11,6 +12,20 @@
 namespace altro {
 namespace constraints {
 
+/**
+ * @brief Calculate the p-norm of a vector of constraint violations
+ *
+ * Unlike Eigen's infinity norm, it is never less than the norm of any of its elements: it's not a
+ * number whenever one of the elements is not a number.
+ *
+ * @tparam p The norm to use (1, 2, or Eigen::Infinity)
+ */
+template <int p, class Derived>
+double ViolationNorm(const Eigen::MatrixBase<Derived>& violation) {
+  return violation.hasNaN() ? std::numeric_limits<double>::quiet_NaN()
+                            : violation.template lpNorm<p>();
+}
+
 /**
  * @brief A constraint that also allocates memory for constraint values, Jacobians,
  * dual variables, etc.
@@ -216,7 +231,7 @@ class ConstraintValues : public Constraint<ConType> {
   double MaxViolation() {
     ConType::Projection(c_, c_proj_);
     c_proj_ = c_ - c_proj_;
-    return c_proj_.template lpNorm<p>();
+    return ViolationNorm<p>(c_proj_);
   }
 
   /**
-- 
2.43.0


From 93bbc809fd366284c7196b88aeee0dc4b21e570e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:46 +0000
Subject: [PATCH 20/53] fix: infinitely negative inequality constraint values
 are not violated

---
 altro/constraints/constraint_values.hpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/altro/constraints/constraint_values.hpp b/altro/constraints/constraint_values.hpp
index 4126e79..f5c6832 100644
--- a/altro/constraints/constraint_values.hpp
+++ b/altro/constraints/constraint_values.hpp
@@ -77,7 +77,8 @@ class ConstraintValues : public Constraint<ConType> {
 
   VectorNd<p>& GetViolation() {
     ConType::Projection(c_, c_proj_);
-    c_proj_ = c_ - c_proj_;
+    // Values in the cone aren't violated, even if they're infinite
+    c_proj_ = (c_.array() == c_proj_.array()).select(0.0, c_ - c_proj_);
     return c_proj_;
   }
 
@@ -229,9 +230,7 @@ class ConstraintValues : public Constraint<ConType> {
    */
   template <int p = Eigen::Infinity>
   double MaxViolation() {
-    ConType::Projection(c_, c_proj_);
-    c_proj_ = c_ - c_proj_;
-    return ViolationNorm<p>(c_proj_);
+    return ViolationNorm<p>(GetViolation());
   }
 
   /**
-- 
2.43.0


From 3586c9dae0796c2c45b962e7b97c9561f9d3258e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:59 +0000
Subject: [PATCH 21/53] fix: the projection Jacobian of inequality constraints
 is written completely

---
 altro/constraints/constraint.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/altro/constraints/constraint.hpp b/altro/constraints/constraint.hpp
index 4f95aac..fa30142 100644
--- a/altro/constraints/constraint.hpp
+++ b/altro/constraints/constraint.hpp
@@ -108,6 +108,7 @@ class NegativeOrthant {
   }
   static void Jacobian(const VectorXdRef& x, Eigen::Ref<MatrixXd> jac) {
     ALTRO_ASSERT(jac.rows() == jac.cols(), "Jacobian must be square.");
+    jac.setZero();
     for (int i = 0; i < x.size(); ++i) {
       jac(i, i) = x(i) > 0 ? 0 : 1;
     }
-- 
2.43.0


From 7092b3793d5f710b4c0824b874fe0c8405b752c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:10 +0000
Subject: [PATCH 22/53] fix: the Runge-Kutta Jacobian evaluates its stages at
 the right times

---
 altro/problem/integration.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/altro/problem/integration.hpp b/altro/problem/integration.hpp
index 5827f91..c423eb1 100644
--- a/altro/problem/integration.hpp
+++ b/altro/problem/integration.hpp
@@ -141,13 +141,13 @@ class RungeKutta4 final : public ExplicitIntegrator<NStates, NControls> {
     dynamics->Jacobian(x, u, t, jac);
     A_[0] = jac.topLeftCorner(n, n);
     B_[0] = jac.topRightCorner(n, m);
-    dynamics->Jacobian(x + 0.5 * k1_ * h, u, 0.5 * t, jac);  // NOLINT(readability-magic-numbers)
+    dynamics->Jacobian(x + 0.5 * k1_ * h, u, t + 0.5 * h, jac);  // NOLINT(readability-magic-numbers)
     A_[1] = jac.topLeftCorner(n, n);
     B_[1] = jac.topRightCorner(n, m);
-    dynamics->Jacobian(x + 0.5 * k2_ * h, u, 0.5 * t, jac);  // NOLINT(readability-magic-numbers)
+    dynamics->Jacobian(x + 0.5 * k2_ * h, u, t + 0.5 * h, jac);  // NOLINT(readability-magic-numbers)
     A_[2] = jac.topLeftCorner(n, n);
     B_[2] = jac.topRightCorner(n, m);
-    dynamics->Jacobian(x + k3_ * h, u, t, jac);
+    dynamics->Jacobian(x + k3_ * h, u, t + h, jac);
     A_[3] = jac.topLeftCorner(n, n);
     B_[3] = jac.topRightCorner(n, m);
 
-- 
2.43.0


From 96cc4c62fb50ea85fd5041b5f29aedb17a167d98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:17 +0000
Subject: [PATCH 23/53] fix: the full Hessian of a cost function includes its
 lower left block

---
 altro/problem/costfunction.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/altro/problem/costfunction.hpp b/altro/problem/costfunction.hpp
index b4a7c38..dd14f59 100644
--- a/altro/problem/costfunction.hpp
+++ b/altro/problem/costfunction.hpp
@@ -69,6 +69,7 @@ class CostFunction : public altro::ScalarFunction {
     constexpr int Nu = NControls;
     Hessian(x, u, hess.topLeftCorner<Nx, Nx>(n, n), hess.topRightCorner<Nx, Nu>(n, m),
             hess.bottomRightCorner<Nu, Nu>(m, m));
+    hess.bottomLeftCorner<Nu, Nx>(m, n) = hess.topRightCorner<Nx, Nu>(n, m).transpose();
   }
 };
 }  // namespace problem
-- 
2.43.0


From de19ba93b73d7650fd706d25f16e415ec28098d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:17 +0000
Subject: [PATCH 24/53] fix: the Jacobian of a scalar function can be written
 to a row of a larger matrix

---
 altro/common/functionbase.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/altro/common/functionbase.hpp b/altro/common/functionbase.hpp
index 18a7386..4ae6c0b 100644
--- a/altro/common/functionbase.hpp
+++ b/altro/common/functionbase.hpp
@@ -146,9 +146,10 @@ class ScalarFunction : public FunctionBase {
 
   void Jacobian(const VectorXdRef& x, const VectorXdRef& u, Eigen::Ref<MatrixXd> jac) override {
     ALTRO_ASSERT(jac.rows() == 1, "Jacobian of a scalar function must have a single row.");
-    // Reinterpret the 1xN Jacobian as an Nx1 column vector
-    Eigen::Map<VectorNd<jac.ColsAtCompileTime>> grad(jac.data(), jac.cols());
+    // The columns of the Jacobian aren't contiguous in memory if it is a row of a larger matrix
+    VectorXd grad = VectorXd::Zero(jac.cols());
     Gradient(x, u, grad);
+    jac = grad.transpose();
   }
 
   void Hessian(const VectorXdRef& x, const VectorXdRef& u, const VectorXdRef& b,
-- 
2.43.0


From 8da41564e28979a4d7e40d1b4ebcc7facf659cce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:56 +0000
Subject: [PATCH 25/53] fix: discretized models do not claim a Hessian they do
 not compute

---
 altro/problem/discretized_model.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/altro/problem/discretized_model.hpp b/altro/problem/discretized_model.hpp
index 43651ad..6b63c0f 100644
--- a/altro/problem/discretized_model.hpp
+++ b/altro/problem/discretized_model.hpp
@@ -53,7 +53,8 @@ class DiscretizedModel : public DiscreteDynamics {
     ALTRO_UNUSED(hess);
   }
 
-  bool HasHessian() const override { return model_->HasHessian(); }
+  // The Hessian of the discretized dynamics isn't implemented, even if the model provides its own
+  bool HasHessian() const override { return false; }
   int StateDimension() const override { return model_->StateDimension(); }
   int ControlDimension() const override { return model_->ControlDimension(); }
 
-- 
2.43.0


From 935a9a4dfc9b65bc3001e0a6b475507c4c91dbec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:11 +0000
Subject: [PATCH 26/53] fix: copied and moved problems keep their horizon

---
 altro/problem/problem.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/altro/problem/problem.hpp b/altro/problem/problem.hpp
index 670ff4e..3b5c0cb 100644
--- a/altro/problem/problem.hpp
+++ b/altro/problem/problem.hpp
@@ -77,6 +77,7 @@ class Problem {
       : N_(N), initial_state_(initial_state), costfuns_(N + 1, nullptr), models_(N + 1, nullptr), eq_(N + 1), ineq_(N + 1) {}
 
   Problem& operator=(const Problem& other) {
+    N_ = other.N_;
     *initial_state_ = *(other.initial_state_);
     costfuns_ = other.costfuns_;
     models_ = other.models_;
@@ -86,11 +87,12 @@ class Problem {
   }
 
   Problem(const Problem& other)
-      : costfuns_(other.costfuns_), models_(other.models_), eq_(other.eq_), ineq_(other.ineq_) {
+      : N_(other.N_), costfuns_(other.costfuns_), models_(other.models_), eq_(other.eq_), ineq_(other.ineq_) {
     *initial_state_ = *(other.initial_state_);
   }
 
   Problem& operator=(Problem&& other) {
+    N_ = other.N_;
     *initial_state_ = *(other.initial_state_);
     costfuns_ = std::move(other.costfuns_);
     models_ = std::move(other.models_);
@@ -100,7 +102,8 @@ class Problem {
   }
 
   Problem(Problem&& other)
-      : initial_state_(other.initial_state_),
+      : N_(other.N_),
+        initial_state_(other.initial_state_),
         costfuns_(std::move(other.costfuns_)),
         models_(std::move(other.models_)),
         eq_(std::move(other.eq_)),
-- 
2.43.0


From 0259062f1f2fa35a58d47db1b4a5236f2c5d23d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:29 +0000
Subject: [PATCH 27/53] fix: checking a problem without dynamics at the first
 step does not dereference them

---
 altro/problem/problem.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/altro/problem/problem.cpp b/altro/problem/problem.cpp
index 7b32f0d..15be2da 100644
--- a/altro/problem/problem.cpp
+++ b/altro/problem/problem.cpp
@@ -20,7 +20,8 @@ bool Problem::IsFullyDefined(const bool verbose) const {
     bool good_state_dim = true;
     if (k == 0) {
       has_initial_state = initial_state_->size() > 0;
-      good_state_dim = has_initial_state && (models_[k]->StateDimension() == initial_state_->size());
+      good_state_dim = has_initial_state && has_dynamics &&
+                       (models_[k]->StateDimension() == initial_state_->size());
       valid_k = valid_k && has_initial_state && good_state_dim;
     }
     valid = valid && valid_k;
-- 
2.43.0


From cd933133e4e7c1fb5f032649843965ba00f11f3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:25 +0000
Subject: [PATCH 28/53] fix: stacked state and control of run-time-sized knot
 points has the right size

---
 altro/common/knotpoint.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/altro/common/knotpoint.hpp b/altro/common/knotpoint.hpp
index f6e0c2a..e1d7762 100644
--- a/altro/common/knotpoint.hpp
+++ b/altro/common/knotpoint.hpp
@@ -116,7 +116,7 @@ class KnotPoint : public StateControlSized<n, m> {
   const StateVector& State() const { return x_; }
   const ControlVector& Control() const { return u_; }
   VectorN<AddSizes(n,m), T> GetStateControl() const {
-    VectorN<AddSizes(n,m), T> z;
+    VectorN<AddSizes(n,m), T> z(this->n_ + this->m_);
     z << x_, u_;
     return z;
   }
-- 
2.43.0


From 7e294f59d5e69636f1e2907745a048b2aa4ee5b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:25 +0000
Subject: [PATCH 29/53] fix: iterators of trajectories with other than double
 values compile

---
 altro/common/trajectory.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/altro/common/trajectory.hpp b/altro/common/trajectory.hpp
index e77516b..ca40f43 100644
--- a/altro/common/trajectory.hpp
+++ b/altro/common/trajectory.hpp
@@ -78,8 +78,8 @@ class Trajectory {
   }
 
   /*************************** Iteration **************************************/
-  using iterator = typename std::vector<KnotPoint<n,m>>::iterator ;
-  using const_iterator = typename std::vector<KnotPoint<n,m>>::const_iterator;
+  using iterator = typename std::vector<KnotPoint<n, m, T>>::iterator ;
+  using const_iterator = typename std::vector<KnotPoint<n, m, T>>::const_iterator;
   iterator begin() { return traj_.begin(); }
   const_iterator begin() const { return traj_.begin(); }
   iterator end() { return traj_.end(); }
-- 
2.43.0


From 697c2a8913aa9f4de53fa9c5337c0c6c56680857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:11 +0000
Subject: [PATCH 30/53] fix: time consistency check accepts long uniform grids
 and rejects times that are not finite

---
 altro/common/trajectory.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/altro/common/trajectory.hpp b/altro/common/trajectory.hpp
index ca40f43..3466168 100644
--- a/altro/common/trajectory.hpp
+++ b/altro/common/trajectory.hpp
@@ -2,7 +2,9 @@
 
 #pragma once
 
+#include <cmath>
 #include <iostream>
+#include <limits>
 #include <vector>
 
 #include "altro/common/knotpoint.hpp"
@@ -140,7 +142,9 @@ class Trajectory {
     for (int k = 0; k < NumSegments(); ++k) {
       float h_calc = GetTime(k + 1) - GetTime(k);
       float h_stored = GetStep(k);
-      if (std::abs(h_stored - h_calc) > eps) {
+      // The times are stored in single precision, so later times are less precise
+      const double resolution = std::numeric_limits<float>::epsilon() * std::abs(GetTime(k + 1));
+      if (!std::isfinite(h_calc) || !(std::abs(h_stored - h_calc) <= eps + resolution)) {
         if (verbose) {
           std::cout << "k=" << k << "\t h=" << h_stored << std::endl;
           std::cout << "t-=" << GetTime(k) << "\t t+=" << GetTime(k + 1)
-- 
2.43.0


From 2809c49ec350b43c859c02d9deec8c46c2bac757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:11 +0000
Subject: [PATCH 31/53] fix: the control of the last knot point of a trajectory
 built from vectors is zero, and empty ones are refused

---
 altro/common/trajectory.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/altro/common/trajectory.hpp b/altro/common/trajectory.hpp
index 3466168..86c9c4d 100644
--- a/altro/common/trajectory.hpp
+++ b/altro/common/trajectory.hpp
@@ -56,12 +56,13 @@ class Trajectory {
                  "Length of times vector must be equal to the length of the "
                  "state trajectory.");
     int N = U.size();
+    ALTRO_ASSERT(N > 0, "The trajectory must have at least one segment.");
     traj_.reserve(N + 1);
     for (int k = 0; k < N; ++k) {
       float h = times[k + 1] - times[k];
       traj_.emplace_back(X[k], U[k], times[k], h);
     }
-    traj_.emplace_back(X[N], 0 * U[N-1], times[N], 0.0);
+    traj_.emplace_back(X[N], ControlVector::Zero(U[N-1].size()), times[N], 0.0);
   }
 
 
-- 
2.43.0


From 9107956238cbaee73c2c1d43336a3f359d9f0055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:14 +0000
Subject: [PATCH 32/53] fix: unknown titles do not create hidden logger
 entries, which made AddEntry insert out of range

---
 altro/common/solver_logger.hpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/altro/common/solver_logger.hpp b/altro/common/solver_logger.hpp
index 88683aa..72c0cb3 100644
--- a/altro/common/solver_logger.hpp
+++ b/altro/common/solver_logger.hpp
@@ -60,7 +60,11 @@ class SolverLogger {
   explicit SolverLogger(const LogLevel level = LogLevel::kSilent) : cur_level_(level) {}
 
   LogLevel GetLevel() const { return cur_level_; }
-  LogEntry& GetEntry(const std::string& title) { return entries_[title]; }
+  LogEntry& GetEntry(const std::string& title) {
+    auto search = entries_.find(title);
+    ALTRO_ASSERT(search != entries_.end(), fmt::format("There is no entry titled \"{}\".", title));
+    return search->second;
+  }
   int NumEntries() { return entries_.size(); }
 
   /*************************** Iteration **************************************/
@@ -205,8 +209,11 @@ LogEntry& SolverLogger::AddEntry(const int& col, Args... args) {
 template <class T>
 void SolverLogger::Log(const std::string& title, T value) {
   // Short-circuit to skip the hash lookup if logging is disabled
-  if (cur_level_ > LogLevel::kSilent && entries_[title].IsActive(cur_level_)) {
-    entries_[title].Log(value);
+  if (cur_level_ > LogLevel::kSilent) {
+    auto search = entries_.find(title);
+    if (search != entries_.end() && search->second.IsActive(cur_level_)) {
+      search->second.Log(value);
+    }
   }
 }
 
-- 
2.43.0


From 7f8e3056706b8806c28fd54670f8822fe4c5a972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:14 +0000
Subject: [PATCH 33/53] fix: adding a second logger entry with the same title
 is refused

---
 altro/common/solver_logger.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/altro/common/solver_logger.hpp b/altro/common/solver_logger.hpp
index 72c0cb3..73b6181 100644
--- a/altro/common/solver_logger.hpp
+++ b/altro/common/solver_logger.hpp
@@ -191,6 +191,8 @@ LogEntry& SolverLogger::AddEntry(const int& col, Args... args) {
   // Create a LogEntry and forward it to the map after extracting the title
   LogEntry entry(std::forward<Args>(args)...);
   const std::string title = entry.GetTitle();
+  ALTRO_ASSERT(entries_.find(title) == entries_.end(),
+               fmt::format("There is already an entry titled \"{}\".", title));
   auto insert = entries_.emplace(std::make_pair(title, std::move(entry)));
 
   // Specify the output order
-- 
2.43.0


From b0bf044c53570a90e6267277298ccb23a133177c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:14 +0000
Subject: [PATCH 34/53] fix: a header frequency of zero is refused instead of
 dividing by zero

---
 altro/common/solver_logger.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/altro/common/solver_logger.hpp b/altro/common/solver_logger.hpp
index 73b6181..e9c786b 100644
--- a/altro/common/solver_logger.hpp
+++ b/altro/common/solver_logger.hpp
@@ -108,7 +108,7 @@ class SolverLogger {
    * @param freq 
    */
   void SetFrequency(const int freq) {
-    ALTRO_ASSERT(freq >= 0, "Header print frequency must be positive.");
+    ALTRO_ASSERT(freq > 0, "Header print frequency must be positive.");
     frequency_ = freq;
   }
 
-- 
2.43.0


From dd98eceda751e650111d287f6b610e4b873f3d19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:14 +0000
Subject: [PATCH 35/53] fix: LogEntry::Print(value) prints the value

---
 altro/common/log_entry.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/altro/common/log_entry.hpp b/altro/common/log_entry.hpp
index 62a3e35..2b5a885 100644
--- a/altro/common/log_entry.hpp
+++ b/altro/common/log_entry.hpp
@@ -179,7 +179,7 @@ class LogEntry {
   template <class T>
   void Print(T value) {
     Log(value);
-    Print();
+    Print(level_);
   }
 
   /**
-- 
2.43.0


From bf865694943f2da4ae1c8a0843f2768510118534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:14 +0000
Subject: [PATCH 36/53] fix: text can be logged

---
 altro/common/log_entry.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/altro/common/log_entry.hpp b/altro/common/log_entry.hpp
index 2b5a885..9ae2007 100644
--- a/altro/common/log_entry.hpp
+++ b/altro/common/log_entry.hpp
@@ -210,6 +210,10 @@ class LogEntry {
     return color;
   }
 
+  // Text isn't bounded
+  fmt::color GetColor(const char* /*value*/) { return color_default_; }
+  fmt::color GetColor(const std::string& /*value*/) { return color_default_; }
+
   static constexpr int kDefaultWidth = 10;
 
   std::string title_;     // title of the entry to appear in the header
-- 
2.43.0


From 9ee481ecd85f8ac807bd7ec251338e34a66c811b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:29 +0000
Subject: [PATCH 37/53] fix: shares of sections longer than 21 seconds do not
 overflow

---
 altro/common/profile_entry.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/altro/common/profile_entry.cpp b/altro/common/profile_entry.cpp
index ce9d56f..d499c91 100644
--- a/altro/common/profile_entry.cpp
+++ b/altro/common/profile_entry.cpp
@@ -36,8 +36,8 @@ ProfileEntry::Ptr ProfileEntry::GetRoot() {
 void ProfileEntry::CalcStats() {
   time_t total_time = GetRoot()->time;
   time_t parent_time = parent ? parent->time : time;
-  int time_us = time.count();
-  int total_us = total_time.count();
+  const auto time_us = time.count();
+  const auto total_us = total_time.count();
   const int percent_scaling = 100;
   if (total_us == 0) {
     percent_total = -1;
-- 
2.43.0


From f1e656a3ddeccd4d53aa5aaeddab1faca20d5427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:31 +0000
Subject: [PATCH 38/53] fix: sections of the profiler summary are assigned to
 the section that contains them

---
 altro/common/timer.cpp | 29 ++++++++++++++---------------
 1 file changed, 14 insertions(+), 15 deletions(-)

diff --git a/altro/common/timer.cpp b/altro/common/timer.cpp
index 32367f8..8af1ac3 100644
--- a/altro/common/timer.cpp
+++ b/altro/common/timer.cpp
@@ -26,13 +26,12 @@ void Timer::PrintSummary(std::map<std::string, std::chrono::microseconds>* const
 
   using EntryPtr = std::shared_ptr<ProfileEntry>;
   std::vector<EntryPtr> entries;
-  std::vector<EntryPtr> parents;
 
   // Add first (top level) entry
   // This is just temporary to provide the total time
   auto times_iter = times.begin();
   entries.emplace_back(std::make_shared<ProfileEntry>("top", std::chrono::microseconds(0)));
-  parents.emplace_back(entries.front());
+  std::map<std::string, EntryPtr> recorded;  // entries by their full name
 
   // Add all the logged entries, assigning parents
   // Each ProfileEntry object splits the "stack" of names (e.g. "al/ilqr/cost" => ["al", "ilqr", "cost"])
@@ -50,21 +49,21 @@ void Timer::PrintSummary(std::map<std::string, std::chrono::microseconds>* const
     // e.g. level of "al/ilqr/cost" is 3.
     size_t curlevel = entry->NumLevels(); 
 
-    // Add another level if needed
-    // The "parents" vector contains the current parent for each level
-    // parents[0] is equal to the base level, so it's length is equal to the
-    // maximum "curlevel" seen so far +1.
-    if (curlevel >= parents.size()) {
-      parents.resize(curlevel + 1);  // the +1 accounts for the 0-level.
+    // Assign the parent to be the closest enclosing section that was recorded, or the temporary
+    // top-level entry if there is none (e.g. the enclosing sections are still open).
+    // Enclosing sections always come first since the entries are sorted alphabetically.
+    recorded[times_iter->first] = entry;
+    entry->parent = entries.front();
+    std::string prefix = times_iter->first;
+    while (prefix.find('/') != std::string::npos) {
+      prefix = prefix.substr(0, prefix.rfind('/'));
+      auto search = recorded.find(prefix);
+      if (search != recorded.end()) {
+        entry->parent = search->second;
+        break;
+      }
     }
 
-    // Always set the current entry as the parent for it's level
-    parents[curlevel] = entry;
-
-    // Assign the parent to be the last entry in the previous level
-    // This is ensured by the fact that the entries are sorted alphabetically
-    entry->parent = parents[curlevel - 1];
-
     // Add up all the base level entries to get the total time
     if (curlevel == 1) {
       entries.front()->time += entry->time;
-- 
2.43.0


From 0f33147f1e9f471a7ce00e620383f13a238f2e73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:34 +0000
Subject: [PATCH 39/53] fix: a stopwatch is recorded once even when it is
 copied or moved

---
 altro/common/timer.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/altro/common/timer.hpp b/altro/common/timer.hpp
index 636b6db..2eebc14 100644
--- a/altro/common/timer.hpp
+++ b/altro/common/timer.hpp
@@ -82,6 +82,9 @@ class Stopwatch {
 
  public:
   ~Stopwatch();
+  Stopwatch(const Stopwatch&) = delete;  // it would be recorded twice
+  Stopwatch& operator=(const Stopwatch&) = delete;
+  Stopwatch(Stopwatch&&) = default;
   friend Stopwatch Timer::Start(const std::string& name); // so that Timer can create a Stopwatch
 
  protected:
-- 
2.43.0


From 308aa8ae436cf75402b8aed93faf1e1bc5b77124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:00 +0000
Subject: [PATCH 40/53] fix: sections are timed with a clock that is never set
 back

---
 altro/common/timer.cpp | 4 ++--
 altro/common/timer.hpp | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/altro/common/timer.cpp b/altro/common/timer.cpp
index 8af1ac3..b416a2a 100644
--- a/altro/common/timer.cpp
+++ b/altro/common/timer.cpp
@@ -118,14 +118,14 @@ void Timer::SetOutput(const std::string& filename) {
 
 Stopwatch::Stopwatch(std::string name, std::shared_ptr<Timer> timer) 
     : name_(std::move(name)), 
-      start_(std::chrono::high_resolution_clock::now()), 
+      start_(std::chrono::steady_clock::now()), 
       parent_(std::move(timer)) {}
 
 Stopwatch::~Stopwatch() {
   // NOTE: Parent will be nullptr if the timer is deactivated and Stopwatch is default-constructed.
   if (parent_) {  
     // Record duration and log the time with the parent timer.
-    auto duration = std::chrono::high_resolution_clock::now() - start_;
+    auto duration = std::chrono::steady_clock::now() - start_;
     microseconds us = std::chrono::duration_cast<microseconds>(duration);
     parent_->stack_.pop_back();  // pop the name off the top of the stack (FILO stack)
     parent_->times_[name_] += us;
diff --git a/altro/common/timer.hpp b/altro/common/timer.hpp
index 2eebc14..bc2bf5d 100644
--- a/altro/common/timer.hpp
+++ b/altro/common/timer.hpp
@@ -93,7 +93,7 @@ class Stopwatch {
 
  private:
   std::string name_;
-  std::chrono::time_point<std::chrono::high_resolution_clock> start_;
+  std::chrono::time_point<std::chrono::steady_clock> start_;
   std::shared_ptr<Timer> parent_;
 };
 
-- 
2.43.0


From 58e93d8d2eddafb9c3b90aa1cffffef8b77575d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:39 +0000
Subject: [PATCH 41/53] fix: the profiler closes the files it opened, and only
 those

---
 altro/common/timer.cpp | 9 +++++++++
 altro/common/timer.hpp | 2 +-
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/altro/common/timer.cpp b/altro/common/timer.cpp
index b416a2a..1eeb486 100644
--- a/altro/common/timer.cpp
+++ b/altro/common/timer.cpp
@@ -92,6 +92,15 @@ void Timer::PrintSummary(std::map<std::string, std::chrono::microseconds>* const
   printed_summary_ = true;
 }
 
+void Timer::SetOutput(FILE* io) {
+  // Close the previous file if the Timer has ownership
+  if (using_file_) {
+    fclose(io_);
+    using_file_ = false;
+  }
+  io_ = io;
+}
+
 Stopwatch Timer::Start(const std::string& name) {
   if (IsActive()) {
     stack_.emplace_back(name);
diff --git a/altro/common/timer.hpp b/altro/common/timer.hpp
index bc2bf5d..f44459c 100644
--- a/altro/common/timer.hpp
+++ b/altro/common/timer.hpp
@@ -54,7 +54,7 @@ class Timer : public std::enable_shared_from_this<Timer> {
   void Activate() { active_ = true; }
   void Deactivate() { active_ = false; }
   bool IsActive() const { return active_; }
-  void SetOutput(FILE* io) { io_ = io; }  // ownership of resource remains with user
+  void SetOutput(FILE* io);  // ownership of resource remains with user
   void SetOutput(const std::string& filename);  // takes ownership of the file resource
   friend Stopwatch;  // so that it can populate times_
 
-- 
2.43.0


From 10351c43012ff3a8ef8fa3d11a8b6a726538413e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:16 +0000
Subject: [PATCH 42/53] fix: a profiler summary is written out when it is
 printed

---
 altro/common/timer.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/altro/common/timer.cpp b/altro/common/timer.cpp
index 1eeb486..7f22686 100644
--- a/altro/common/timer.cpp
+++ b/altro/common/timer.cpp
@@ -89,6 +89,7 @@ void Timer::PrintSummary(std::map<std::string, std::chrono::microseconds>* const
     entries[i]->CalcStats();
     entries[i]->Print(io_, max_width);
   }
+  fflush(io_);  // otherwise it ends up in the middle of the file if the file is opened again
   printed_summary_ = true;
 }
 
-- 
2.43.0


From 7421e151ce066c27887bdb61317890c7179d3d76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:58 +0000
Subject: [PATCH 43/53] fix: problems and solvers without segments are refused

---
 altro/ilqr/ilqr.hpp       | 5 ++++-
 altro/problem/problem.hpp | 4 +++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/altro/ilqr/ilqr.hpp b/altro/ilqr/ilqr.hpp
index b0de6aa..2f9a20b 100644
--- a/altro/ilqr/ilqr.hpp
+++ b/altro/ilqr/ilqr.hpp
@@ -47,7 +47,10 @@ namespace ilqr {
 template <int n = Eigen::Dynamic, int m = Eigen::Dynamic>
 class iLQR {
  public:
-  explicit iLQR(int N) : N_(N), knotpoints_() { ResetInternalVariables(); }
+  explicit iLQR(int N) : N_(N), knotpoints_() {
+    ALTRO_ASSERT(N > 0, "The solver must have at least one segment.");
+    ResetInternalVariables();
+  }
   explicit iLQR(const problem::Problem& prob)
       : N_(prob.NumSegments()), initial_state_(std::move(prob.GetInitialStatePointer())) {
     InitializeFromProblem(prob);
diff --git a/altro/problem/problem.hpp b/altro/problem/problem.hpp
index 3b5c0cb..d911ef3 100644
--- a/altro/problem/problem.hpp
+++ b/altro/problem/problem.hpp
@@ -74,7 +74,9 @@ class Problem {
    * points)
    */
   explicit Problem(const int N, std::shared_ptr<VectorXd> initial_state = std::make_shared<VectorXd>(0))
-      : N_(N), initial_state_(initial_state), costfuns_(N + 1, nullptr), models_(N + 1, nullptr), eq_(N + 1), ineq_(N + 1) {}
+      : N_(N), initial_state_(initial_state), costfuns_(N + 1, nullptr), models_(N + 1, nullptr), eq_(N + 1), ineq_(N + 1) {
+    ALTRO_ASSERT(N > 0, "The problem must have at least one segment.");
+  }
 
   Problem& operator=(const Problem& other) {
     N_ = other.N_;
-- 
2.43.0


From 880b35cca91958d896dbc5ce9a5f89db4f2ffd96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:58 +0000
Subject: [PATCH 44/53] fix: constraints at invalid knot points are refused

---
 altro/problem/problem.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/altro/problem/problem.cpp b/altro/problem/problem.cpp
index 15be2da..2e20c82 100644
--- a/altro/problem/problem.cpp
+++ b/altro/problem/problem.cpp
@@ -46,6 +46,7 @@ void Problem::SetConstraint<constraints::Equality>(
     std::shared_ptr<constraints::Constraint<constraints::Equality>> con, int k) {
   ALTRO_ASSERT(con != nullptr, "Must provide a valid constraint pointer.");
   ALTRO_ASSERT(con->OutputDimension() > 0, "Constraint must have a length greater than zero.");
+  ALTRO_ASSERT((k >= 0) && (k <= N_), "Invalid knot point index.");
   eq_[k].emplace_back(std::move(con));
 }
 
@@ -54,6 +55,7 @@ void Problem::SetConstraint<constraints::Inequality>(
     std::shared_ptr<constraints::Constraint<constraints::Inequality>> con, int k) {
   ALTRO_ASSERT(con != nullptr, "Must provide a valid constraint pointer.");
   ALTRO_ASSERT(con->OutputDimension() > 0, "Constraint must have a length greater than zero.");
+  ALTRO_ASSERT((k >= 0) && (k <= N_), "Invalid knot point index.");
   ineq_[k].emplace_back(std::move(con));
 }
 
-- 
2.43.0


From ab0910c753e66e5028afcfd433ef3aa335d8ee97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:58 +0000
Subject: [PATCH 45/53] fix: a solver is not given more knot points than it
 has, nor used before it has them

---
 altro/ilqr/ilqr.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/altro/ilqr/ilqr.hpp b/altro/ilqr/ilqr.hpp
index 2f9a20b..a8051fa 100644
--- a/altro/ilqr/ilqr.hpp
+++ b/altro/ilqr/ilqr.hpp
@@ -104,8 +104,10 @@ class iLQR {
   void CopyFromProblem(const problem::Problem& prob, int k_start, int k_stop) {
     ALTRO_ASSERT(0 <= k_start && k_start <= N_,
                  fmt::format("Start index must be in the interval [0,{}]", N_));
-    ALTRO_ASSERT(0 <= k_stop && k_stop <= N_ + 1,
-                 fmt::format("Start index must be in the interval [0,{}]", N_ + 1));
+    ALTRO_ASSERT(0 < k_stop && k_stop <= N_ + 1,
+                 fmt::format("Stop index must be in the interval (0,{}]", N_ + 1));
+    ALTRO_ASSERT(static_cast<int>(knotpoints_.size()) + k_stop - k_start <= N_ + 1,
+                 "The solver already has all of its knot points.");
     ALTRO_ASSERT(prob.IsFullyDefined(), "Expected problem to be fully defined.");
     for (int k = k_start; k < k_stop; ++k) {
       if (n != Eigen::Dynamic) {
@@ -159,6 +161,8 @@ class iLQR {
    */
   KnotPointFunctions<n, m>& GetKnotPointFunction(int k) {
     ALTRO_ASSERT((k >= 0) && (k <= N_), "Invalid knot point index.");
+    ALTRO_ASSERT(k < static_cast<int>(knotpoints_.size()),
+                 "The knot point must be initialized from a problem.");
     return *(knotpoints_[k]);
   }
 
-- 
2.43.0


From b03523b7c1ab9f47a44e08ae174da5d609ba3c91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:58 +0000
Subject: [PATCH 46/53] fix: a trajectory that is a null pointer is refused

---
 altro/ilqr/ilqr.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/altro/ilqr/ilqr.hpp b/altro/ilqr/ilqr.hpp
index a8051fa..93848a8 100644
--- a/altro/ilqr/ilqr.hpp
+++ b/altro/ilqr/ilqr.hpp
@@ -247,6 +247,7 @@ class iLQR {
    * @param traj Pointer to the trajectory
    */
   void SetTrajectory(std::shared_ptr<Trajectory<n, m>> traj) {
+    ALTRO_ASSERT(traj != nullptr, "The trajectory cannot be a nullptr.");
     Z_ = std::move(traj);
     Zbar_ = std::make_unique<Trajectory<n, m>>(*Z_);
     Zbar_->SetZero();
-- 
2.43.0


From a505677e507bce98bc622081e599194465a471ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:58 +0000
Subject: [PATCH 47/53] fix: trajectories and initial states that do not match
 the problem are refused

---
 altro/ilqr/ilqr.hpp | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/altro/ilqr/ilqr.hpp b/altro/ilqr/ilqr.hpp
index 93848a8..0abe8d3 100644
--- a/altro/ilqr/ilqr.hpp
+++ b/altro/ilqr/ilqr.hpp
@@ -318,6 +318,9 @@ class iLQR {
     // TODO(bjackson): Allow the solver to optimize a portion of a longer trajectory?
     ALTRO_ASSERT(Z_->NumSegments() == N_,
                  fmt::format("Initial trajectory must have length {}", N_));
+    CheckTrajectory(*Z_);
+    ALTRO_ASSERT(initial_state_->size() == knotpoints_[0]->StateDimension(),
+                 "The size of the initial state must match the problem.");
 
     // Start profiler
     GetOptions().profiler_enable ? stats_.GetTimer()->Activate() : stats_.GetTimer()->Deactivate();
@@ -362,6 +365,7 @@ class iLQR {
   }
   double Cost(const Trajectory<n, m>& Z) {
     Stopwatch sw = stats_.GetTimer()->Start("cost");
+    CheckTrajectory(Z);
     CalcIndividualCosts(Z);
     return costs_.sum();
   }
@@ -383,6 +387,7 @@ class iLQR {
   void UpdateExpansions() {
     Stopwatch sw = stats_.GetTimer()->Start("expansions");
     ALTRO_ASSERT(Z_ != nullptr, "Trajectory pointer must be set before updating the expansions.");
+    CheckTrajectory(*Z_);
 
     int nthreads = NumThreads();
     if (nthreads <= 1) {
@@ -717,6 +722,21 @@ class iLQR {
   }
 
  private:
+  /**
+   * @brief Check that the trajectory is compatible with the problem the solver holds
+   */
+  void CheckTrajectory(const Trajectory<n, m>& Z) const {
+    ALTRO_UNUSED(Z);
+    ALTRO_ASSERT(static_cast<int>(knotpoints_.size()) == N_ + 1,
+                 "The solver must be initialized from a problem.");
+    ALTRO_ASSERT(Z.NumSegments() == N_, fmt::format("Trajectory must have length {}", N_));
+    for (int k = 0; k <= N_; ++k) {
+      ALTRO_ASSERT(Z.StateDimension(k) == knotpoints_[k]->StateDimension() &&
+                       Z.ControlDimension(k) == knotpoints_[k]->ControlDimension(),
+                   "The sizes of the trajectory must match the problem.");
+    }
+  }
+
   void ResetInternalVariables() {
     status_ = SolverStatus::kUnsolved;
     costs_ = VectorXd::Zero(N_ + 1);
-- 
2.43.0


From 97305e0126cf4554831e4ee5b8dbf546370f6b3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:58 +0000
Subject: [PATCH 48/53] fix: the augmented Lagrangian solver checks that it is
 initialized with a problem of its length

---
 altro/augmented_lagrangian/al_solver.hpp | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/altro/augmented_lagrangian/al_solver.hpp b/altro/augmented_lagrangian/al_solver.hpp
index 2322bf6..8b5cfd6 100644
--- a/altro/augmented_lagrangian/al_solver.hpp
+++ b/altro/augmented_lagrangian/al_solver.hpp
@@ -54,7 +54,10 @@ class AugmentedLagrangianiLQR {
   SolverOptions& GetOptions() { return ilqr_solver_.GetOptions(); }
   const SolverOptions& GetOptions() const { return ilqr_solver_.GetOptions(); }
   SolverStatus GetStatus() const { return status_; }
-  std::shared_ptr<ALCost<n, m>> GetALCost(const int k) { return costs_.at(k); }
+  std::shared_ptr<ALCost<n, m>> GetALCost(const int k) {
+    ALTRO_ASSERT(0 <= k && k < static_cast<int>(costs_.size()), "Invalid knot point index.");
+    return costs_[k];
+  }
   ilqr::iLQR<n, m>& GetiLQRSolver() { return ilqr_solver_; }
   int NumSegments() const { return ilqr_solver_.NumSegments(); }
 
@@ -94,6 +97,7 @@ class AugmentedLagrangianiLQR {
    * @return std::vector<constraints::ConstraintInfo>
    */
   std::vector<constraints::ConstraintInfo> GetConstraintInfo(bool should_sort = false) const {
+    CheckInitialized();
     std::vector<constraints::ConstraintInfo> coninfo;
     int i_last = 0;
     for (int k = 0; k <= NumSegments(); ++k) {
@@ -230,6 +234,11 @@ class AugmentedLagrangianiLQR {
     ilqr_solver_.SetConstraintCallback(max_violation_callback);
   }
 
+  void CheckInitialized() const {
+    ALTRO_ASSERT(static_cast<int>(costs_.size()) == NumSegments() + 1,
+                 "The solver must be initialized with a problem.");
+  }
+
   Stopwatch CreateTimer(const std::string& name) { return GetStats().GetTimer()->Start(name); }
 
   ilqr::iLQR<n, m> ilqr_solver_;
@@ -252,6 +261,12 @@ AugmentedLagrangianiLQR<n, m>::AugmentedLagrangianiLQR(const problem::Problem& p
 
 template <int n, int m>
 void AugmentedLagrangianiLQR<n, m>::InitializeFromProblem(const problem::Problem& prob) {
+  ALTRO_ASSERT(prob.NumSegments() == NumSegments(),
+               fmt::format("Number of segments in problem {}, should be equal to the number of "
+                           "segments in the solver, {}",
+                           prob.NumSegments(), NumSegments()));
+  ALTRO_ASSERT(prob.IsFullyDefined(), "Expected problem to be fully defined.");
+  ALTRO_ASSERT(costs_.empty(), "The solver is already initialized with a problem.");
   max_violation_.setZero(prob.NumSegments() + 1);
   problem::Problem prob_al = BuildAugLagProblem<n, m>(prob, &costs_);
   ALTRO_ASSERT(static_cast<int>(costs_.size()) == prob.NumSegments() + 1,
@@ -285,6 +300,7 @@ int AugmentedLagrangianiLQR<n, m>::NumConstraints() const {
 
 template <int n, int m>
 void AugmentedLagrangianiLQR<n, m>::SetPenalty(const double& rho) {
+  CheckInitialized();
   for (int k = 0; k <= NumSegments(); ++k) {
     costs_[k]->template SetPenalty<constraints::Equality>(rho);
     costs_[k]->template SetPenalty<constraints::Inequality>(rho);
@@ -293,6 +309,7 @@ void AugmentedLagrangianiLQR<n, m>::SetPenalty(const double& rho) {
 
 template <int n, int m>
 void AugmentedLagrangianiLQR<n, m>::SetPenaltyScaling(const double& phi) {
+  CheckInitialized();
   for (int k = 0; k <= NumSegments(); ++k) {
     costs_[k]->template SetPenaltyScaling<constraints::Equality>(phi);
     costs_[k]->template SetPenaltyScaling<constraints::Inequality>(phi);
@@ -351,6 +368,7 @@ void AugmentedLagrangianiLQR<n, m>::Solve() {
 template <int n, int m>
 void AugmentedLagrangianiLQR<n, m>::UpdateDuals() {
   Stopwatch sw = CreateTimer("dual_update");
+  CheckInitialized();
 
   int N = this->NumSegments();
   for (int k = 0; k <= N; ++k) {
@@ -362,6 +380,7 @@ void AugmentedLagrangianiLQR<n, m>::UpdateDuals() {
 template <int n, int m>
 void AugmentedLagrangianiLQR<n, m>::UpdatePenalties() {
   Stopwatch sw = CreateTimer("penalty_update");
+  CheckInitialized();
 
   int N = this->NumSegments();
   for (int k = 0; k <= N; ++k) {
@@ -432,6 +451,7 @@ double AugmentedLagrangianiLQR<n, m>::MaxViolation(const Trajectory<n, m>& Z) {
 template <int n, int m>
 template <int p>
 double AugmentedLagrangianiLQR<n, m>::GetMaxViolation() {
+  CheckInitialized();
   for (int k = 0; k <= NumSegments(); ++k) {
     max_violation_(k) = costs_[k]->template MaxViolation<p>();
   }
@@ -440,6 +460,7 @@ double AugmentedLagrangianiLQR<n, m>::GetMaxViolation() {
 
 template <int n, int m>
 double AugmentedLagrangianiLQR<n, m>::GetMaxPenalty() const {
+  CheckInitialized();
   double max_penalty = 0.0;
 
   for (int k = 0; k <= NumSegments(); ++k) {
-- 
2.43.0


From 88d4009399c02016d4e3a8c2f51dbeb2e4c4307c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:58 +0000
Subject: [PATCH 49/53] fix: a penalty of zero is refused

---
 altro/constraints/constraint_values.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/altro/constraints/constraint_values.hpp b/altro/constraints/constraint_values.hpp
index f5c6832..f4063fa 100644
--- a/altro/constraints/constraint_values.hpp
+++ b/altro/constraints/constraint_values.hpp
@@ -90,10 +90,10 @@ class ConstraintValues : public Constraint<ConType> {
   /**
    * @brief Set the same penalty for all constraints
    *
-   * @param rho Penalty value. rho >= 0.
+   * @param rho Penalty value. rho > 0.
    */
   void SetPenalty(double rho) {
-    ALTRO_ASSERT(rho >= 0, "Penalty must be positive.");
+    ALTRO_ASSERT(rho > 0, "Penalty must be positive.");  // the cost divides by it
     penalty_.setConstant(rho);
   }
 
-- 
2.43.0


From a93920b25693edc3acf730f805b0e88ef73b1d3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:38 +0000
Subject: [PATCH 50/53] fix: sort violations that are not a number first in
 constraint listings

---
 altro/augmented_lagrangian/al_solver.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/altro/augmented_lagrangian/al_solver.hpp b/altro/augmented_lagrangian/al_solver.hpp
index 8b5cfd6..8d50825 100644
--- a/altro/augmented_lagrangian/al_solver.hpp
+++ b/altro/augmented_lagrangian/al_solver.hpp
@@ -108,8 +108,14 @@ class AugmentedLagrangianiLQR {
       i_last = coninfo.size();
     }
     if (should_sort) {
+      // Violations that aren't a number come first, since they can't be ordered by comparing them
       auto comp = [](const constraints::ConstraintInfo& info1,
                      const constraints::ConstraintInfo& info2) {
+        const bool is_nan1 = info1.violation.hasNaN();
+        const bool is_nan2 = info2.violation.hasNaN();
+        if (is_nan1 || is_nan2) {
+          return is_nan1 && !is_nan2;
+        }
         return info1.violation.lpNorm<Eigen::Infinity>() > info2.violation.lpNorm<Eigen::Infinity>();
       };
       std::sort(coninfo.begin(), coninfo.end(), comp);
-- 
2.43.0


From f976c76fcde1c45fd3dcfcab428e53d99e458d97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:38 +0000
Subject: [PATCH 51/53] fix: pass on exceptions of tasks to the waiting thread

---
 altro/common/threadpool.cpp | 17 ++++++++++++++++-
 altro/common/threadpool.hpp |  2 ++
 2 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/altro/common/threadpool.cpp b/altro/common/threadpool.cpp
index 3850ab2..b7e5f4c 100644
--- a/altro/common/threadpool.cpp
+++ b/altro/common/threadpool.cpp
@@ -3,6 +3,8 @@
 #include <fmt/format.h>
 #include <fmt/chrono.h>
 
+#include <exception>
+
 #include "altro/common/threadpool.hpp"
 
 namespace altro {
@@ -32,13 +34,26 @@ ThreadPool& ThreadPool::operator=(ThreadPool&& other) noexcept {
 }
 
 void ThreadPool::Wait() {
-  for (const std::future<void>& future : futures_) {
+  std::exception_ptr failure;
+  for (std::future<void>& future : futures_) {
     std::future_status status = future.wait_for(timeout_);
     if (status == std::future_status::timeout) {
       fmt::print("Task timed out after {}\n", timeout_);
+      continue;
+    }
+    try {
+      future.get();
+    } catch (...) {
+      // Wait for the other tasks before passing it on
+      if (!failure) {
+        failure = std::current_exception();
+      }
     }
   }
   futures_.clear();
+  if (failure) {
+    std::rethrow_exception(failure);
+  }
 }
 
 void ThreadPool::LaunchThreads(int nthreads) {
diff --git a/altro/common/threadpool.hpp b/altro/common/threadpool.hpp
index f8dbc68..a9da6de 100644
--- a/altro/common/threadpool.hpp
+++ b/altro/common/threadpool.hpp
@@ -89,6 +89,8 @@ class ThreadPool {
   /**
    * @brief Wait for all the tasks in the queue to finish.
    *
+   * If tasks ended with an exception, one of them is thrown again after all the tasks have
+   * finished.
    *
    */
   void Wait();
-- 
2.43.0


From dab7d67a2e9d219705e85a36fe433d119693a7cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:38 +0000
Subject: [PATCH 52/53] fix: measure benchmarks with a steady clock

---
 altro/utils/benchmarking.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/altro/utils/benchmarking.hpp b/altro/utils/benchmarking.hpp
index ddf8dca..653825d 100644
--- a/altro/utils/benchmarking.hpp
+++ b/altro/utils/benchmarking.hpp
@@ -104,9 +104,9 @@ BenchmarkResults<Duration> Benchmark(Function f, int Nsamples = kDefaultSamples)
   std::vector<time_t> times;
   times.reserve(Nsamples);
   for (int i = 0; i < Nsamples; ++i) {
-    auto start = std::chrono::high_resolution_clock::now();
+    auto start = std::chrono::steady_clock::now();  // not affected by changes of the system time
     f();
-    auto stop = std::chrono::high_resolution_clock::now();
+    auto stop = std::chrono::steady_clock::now();
     times.emplace_back(std::chrono::duration_cast<time_t>(stop - start));
   }
   return BenchmarkResults<Duration>::Calculate(times);
-- 
2.43.0


From bae3b32c78898fd37069ae851b9c1360c8823f40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:05 +0000
Subject: [PATCH 53/53] fix: require at least one sample for benchmark
 statistics

---
 altro/utils/benchmarking.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/altro/utils/benchmarking.hpp b/altro/utils/benchmarking.hpp
index 653825d..3218abf 100644
--- a/altro/utils/benchmarking.hpp
+++ b/altro/utils/benchmarking.hpp
@@ -3,6 +3,7 @@
 #include <vector>
 #include <chrono>
 #include <algorithm>
+#include <stdexcept>
 #include <fmt/format.h>
 #include <fmt/chrono.h>
 
@@ -45,6 +46,9 @@ struct BenchmarkResults {
 
 template <class Duration>
 BenchmarkResults<Duration> BenchmarkResults<Duration>::Calculate(std::vector<time_t>& times) {
+  if (times.empty()) {
+    throw std::invalid_argument("There must be at least one sample.");
+  }
   // Sort for median
   std::sort(times.begin(), times.end());
   int samples = times.size();
-- 
2.43.0

