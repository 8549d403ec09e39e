From a44691cb6313dff041a0595814289ea7b18547b4 Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 22:00:23 +0000
Subject: [PATCH 01/23] fix: move assignment to a packaged_task breaks the
 promise it replaces

---
 include/stlab/concurrency/future.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/stlab/concurrency/future.hpp b/include/stlab/concurrency/future.hpp
index ce61c43..1987c66 100644
--- a/include/stlab/concurrency/future.hpp
+++ b/include/stlab/concurrency/future.hpp
@@ -665,7 +665,12 @@ public:
     auto operator=(const packaged_task&) -> packaged_task& = delete;
 
     packaged_task(packaged_task&&) noexcept = default;
-    auto operator=(packaged_task&& x) noexcept -> packaged_task& = default;
+    auto operator=(packaged_task&& x) noexcept -> packaged_task& {
+        // the task held before, if any, is destroyed, so that its promise is reported as broken
+        packaged_task tmp{std::move(x)};
+        std::swap(_p, tmp._p);
+        return *this;
+    }
 
     template <class... A>
     void operator()(A&&... args) noexcept {
-- 
2.43.0


From bddf8114d17ff0067765a7900b4fdc8f8ff9162a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:01 +0000
Subject: [PATCH 02/23] fix: a continuation attached to a detached move-only
 future no longer undoes the detach

then(), recover() and detach(f) on a move-only future replaced the holder
which detach() had stored in _then, so dropping the continuation cancelled
the detached task.
---
 include/stlab/concurrency/future.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/stlab/concurrency/future.hpp b/include/stlab/concurrency/future.hpp
index 1987c66..13a0e7c 100644
--- a/include/stlab/concurrency/future.hpp
+++ b/include/stlab/concurrency/future.hpp
@@ -461,6 +461,8 @@ struct shared_base<T, enable_if_not_copyable<void_to_monostate_t<T>>>
     std::mutex _mutex;
     std::atomic_bool _ready{false};
     then_t _then;
+    // holds this while it is detached and not ready; _then may be replaced by a continuation
+    std::shared_ptr<shared_base> _detached;
 
     explicit shared_base(executor_t s) : _executor(std::move(s)) {}
 
@@ -512,14 +514,16 @@ struct shared_base<T, enable_if_not_copyable<void_to_monostate_t<T>>>
 
     void _detach() {
         std::unique_lock<std::mutex> lock(_mutex);
-        if (!_ready) _then = then_t([](auto&&) {}, [_p = this->shared_from_this()]() noexcept {});
+        if (!_ready) _detached = this->shared_from_this();
     }
 
     void _set_exception(const std::exception_ptr& error) noexcept {
         _exception = error;
+        std::shared_ptr<shared_base> detached;
         then_t then;
         {
             std::unique_lock<std::mutex> lock(_mutex);
+            detached = std::move(_detached);
             if (_then.second) then = std::move(_then);
             _ready = true;
         }
@@ -1663,10 +1667,12 @@ template <class T>
 struct value_<T, enable_if_not_copyable<void_to_monostate_t<T>>> {
     template <class C>
     static void proceed(C& sb) {
+        decltype(sb._detached) detached;
         typename C::then_t then;
         {
             std::unique_lock<std::mutex> lock(sb._mutex);
             sb._ready = true;
+            detached = std::move(sb._detached);
             then = std::move(sb._then);
         }
         if (then.first) then.first(std::move(then.second));
-- 
2.43.0


From 4e0e3bb2ee11be562c426af34804773dc4f2cf88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:30 +0000
Subject: [PATCH 03/23] fix: an executor returned by execute_at can be used
 more than once

The delayed branch moved the stored executor into the first timer task, so the
second task executed through the same executor object was handed to an empty
std::function.
---
 include/stlab/concurrency/executor_base.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stlab/concurrency/executor_base.hpp b/include/stlab/concurrency/executor_base.hpp
index 76410c2..76299a9 100644
--- a/include/stlab/concurrency/executor_base.hpp
+++ b/include/stlab/concurrency/executor_base.hpp
@@ -36,7 +36,7 @@ auto execute_at(std::chrono::duration<Rep, Per> duration, executor_t executor) -
     return [_duration = std::move(duration), _executor = std::move(executor)](auto f) mutable {
         if (_duration != std::chrono::duration<Rep, Per>{})
             system_timer(_duration,
-                         [_f = std::move(f), _executor = std::move(_executor)]() mutable noexcept {
+                         [_f = std::move(f), _executor = _executor]() mutable noexcept {
                              _executor(std::move(_f));
                          });
         else
-- 
2.43.0


From 562739484f73da9181c71cb9ee52ef54fa49abb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:20 +0000
Subject: [PATCH 04/23] fix: a process annotated with an executor can be
 annotated with a buffer size

The constructor passed the buffer_size itself to annotations, which takes a
std::size_t, so (process & executor) & buffer_size did not compile.
---
 include/stlab/concurrency/channel.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stlab/concurrency/channel.hpp b/include/stlab/concurrency/channel.hpp
index 21bc9b2..a165a72 100644
--- a/include/stlab/concurrency/channel.hpp
+++ b/include/stlab/concurrency/channel.hpp
@@ -1372,7 +1372,7 @@ struct annotated_process {
     annotated_process(F f, executor&& e) : _f(std::move(f)), _annotations(std::move(e._executor)) {}
     annotated_process(F f, annotations&& a) : _f(std::move(f)), _annotations(std::move(a)) {}
     annotated_process(executor_task_pair<F>&& etp, buffer_size bs) :
-        _f(std::move(etp._f)), _annotations(std::move(etp._executor), bs) {}
+        _f(std::move(etp._f)), _annotations(std::move(etp._executor), bs._value) {}
 };
 
 template <typename B, typename E>
-- 
2.43.0


From af79c2eeeead3fddf9938aec9d44d39c5663431e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:20 +0000
Subject: [PATCH 05/23] fix: annotating an annotated process keeps the second
 annotation

operator& stored the executor or buffer size in the moved-from argument
instead of the result, so (process & buffer_size) & executor ran on the
upstream executor.
---
 include/stlab/concurrency/channel.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/stlab/concurrency/channel.hpp b/include/stlab/concurrency/channel.hpp
index a165a72..156958f 100644
--- a/include/stlab/concurrency/channel.hpp
+++ b/include/stlab/concurrency/channel.hpp
@@ -1433,14 +1433,14 @@ auto operator&(F&& f, detail::annotations&& a) -> detail::annotated_process<F> {
 template <typename F>
 auto operator&(detail::annotated_process<F>&& a, executor&& e) -> detail::annotated_process<F> {
     auto result{std::move(a)};
-    a._annotations._executor = std::move(e._executor);
+    result._annotations._executor = std::move(e._executor);
     return result;
 }
 
 template <typename F>
 auto operator&(detail::annotated_process<F>&& a, buffer_size bs) -> detail::annotated_process<F> {
     auto result{std::move(a)};
-    a._annotations._buffer_size = bs._value;
+    result._annotations._buffer_size = bs._value;
     return result;
 }
 
-- 
2.43.0


From 49ab762d44f19f58597f79298e44297bc32bd8d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:51 +0000
Subject: [PATCH 06/23] fix: close is called on a process only when its channel
 is closed

An await/yield process had close() called every time its queue ran empty,
not only when no more data is coming.
---
 include/stlab/concurrency/channel.hpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/include/stlab/concurrency/channel.hpp b/include/stlab/concurrency/channel.hpp
index 156958f..1275672 100644
--- a/include/stlab/concurrency/channel.hpp
+++ b/include/stlab/concurrency/channel.hpp
@@ -893,8 +893,6 @@ struct shared_process
                     do_close = true;
             } else
                 await_variant_args<process_t, Args...>(*_process, *message);
-        } else {
-            do_close = true;
         }
 
         if (do_close) process_close(_process);
-- 
2.43.0


From da2d4a860f24f11ad59679f054faed1efac2314e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:25 +0000
Subject: [PATCH 07/23] fix: a closed process delivers all it yields and passes
 the close on

After its close a process that switched to the yield state was asked for one
value only: clear_to_send ignored a final process, so further values were
never yielded, the close was not propagated downstream and the process was
kept until the whole channel went.
---
 include/stlab/concurrency/channel.hpp | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/include/stlab/concurrency/channel.hpp b/include/stlab/concurrency/channel.hpp
index 1275672..fe9a7c4 100644
--- a/include/stlab/concurrency/channel.hpp
+++ b/include/stlab/concurrency/channel.hpp
@@ -817,22 +817,26 @@ struct shared_process
         assert(!(do_run && do_final) && "ERROR (sparent) : can't run and close at the same time.");
         // I met him on a Monday and my heart stood still
         if (do_run) run();
-        if (do_final) {
-            std::unique_lock<std::mutex> lock(_downstream_mutex);
-            _downstream.clear(); // This will propagate the close to anything downstream
-            _process = std::nullopt;
-        }
+        if (do_final) finalize();
+    }
+
+    void finalize() {
+        std::unique_lock<std::mutex> lock(_downstream_mutex);
+        _downstream.clear(); // This will propagate the close to anything downstream
+        _process = std::nullopt;
     }
 
     void clear_to_send() override {
         {
             std::unique_lock<std::mutex> lock(_process_mutex);
-            if (_process_final) {
+            // A final process continues only while it yields values in response to the close
+            if (_process_final && !_process_suspend_count) {
                 return;
             }
         }
 
         bool do_run = false;
+        bool do_final = false;
         {
             const auto ps = get_process_state(_process);
             std::unique_lock<std::mutex> lock(_process_mutex);
@@ -844,11 +848,13 @@ struct shared_process
                 } else {
                     _process_running = false;
                     do_run = false;
+                    do_final = _process_final;
                 }
             }
         }
         // Somebody told me that his name was Bill
         if (do_run) run();
+        if (do_final) finalize();
     }
 
     auto pop_from_queue() {
-- 
2.43.0


From bd263e7c89b89514e9f471010c9cef62fc67653f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:06 +0000
Subject: [PATCH 08/23] fix: a function process that receives an error closes

It stopped without being closed: the close never reached the processes below
it and everything upstream stayed blocked on its full buffer.
---
 include/stlab/concurrency/channel.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/stlab/concurrency/channel.hpp b/include/stlab/concurrency/channel.hpp
index fe9a7c4..f5e7e77 100644
--- a/include/stlab/concurrency/channel.hpp
+++ b/include/stlab/concurrency/channel.hpp
@@ -1109,8 +1109,10 @@ struct shared_process
 
         if (message) {
             auto error = find_argument_error(*message);
-            if (error) {
-                do_close = true;
+            if (error || !_process) {
+                // The error closes this process, whatever still arrives is dropped
+                finalize();
+                task_done();
             } else {
                 try {
                     broadcast(
-- 
2.43.0


From cb23d6e2a3e7bf229f5952a7c66fb3f9e3c7da50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:50 +0000
Subject: [PATCH 09/23] fix: a value that arrives cancels the timeout of a
 process

A timeout scheduled before the value arrived fired all the same: yield was
called too early and more than once. The timeouts now carry the step they
were scheduled by and are ignored when there was another one since.
---
 include/stlab/concurrency/channel.hpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/include/stlab/concurrency/channel.hpp b/include/stlab/concurrency/channel.hpp
index f5e7e77..bd1bd86 100644
--- a/include/stlab/concurrency/channel.hpp
+++ b/include/stlab/concurrency/channel.hpp
@@ -748,6 +748,7 @@ struct shared_process
 
     std::mutex _timeout_function_control;
     std::atomic_bool _timeout_function_active{false};
+    std::size_t _timeout_generation{0}; // counts the steps, under _timeout_function_control
 
     std::atomic_size_t _sender_count{0};
     std::atomic_size_t _receiver_count;
@@ -922,6 +923,7 @@ struct shared_process
             return;
         }
         _timeout_function_active = false;
+        ++_timeout_generation; // cancels a pending timeout
 
         /*
             While we are waiting we will flush the queue. The assumption here is that work
@@ -969,7 +971,8 @@ struct shared_process
                 /* Schedule a timeout. */
                 _timeout_function_active = true;
                 execute_at(duration, _executor)(
-                    [_weak_this = make_weak_ptr(this->shared_from_this())]() noexcept {
+                    [_weak_this = make_weak_ptr(this->shared_from_this()),
+                     _generation = _timeout_generation]() noexcept {
                         auto _this = _weak_this.lock();
                         // It may be that the complete channel is gone in the meanwhile
                         if (!_this) return;
@@ -980,6 +983,7 @@ struct shared_process
                             if (!lock) continue;
 
                             // we were cancelled
+                            if (_generation != _this->_timeout_generation) return;
                             if (get_process_state(_this->_process).first != process_state::yield) {
                                 _this->try_broadcast();
                                 _this->_timeout_function_active = false;
@@ -1004,6 +1008,7 @@ struct shared_process
             return;
         }
         _timeout_function_active = false;
+        ++_timeout_generation; // cancels a pending timeout
 
         /*
             While we are waiting we will flush the queue. The assumption here is that work
@@ -1053,7 +1058,8 @@ struct shared_process
                 /* Schedule a timeout. */
                 _timeout_function_active = true;
                 execute_at(duration, _executor)(
-                    [_weak_this = make_weak_ptr(this->shared_from_this())]() noexcept {
+                    [_weak_this = make_weak_ptr(this->shared_from_this()),
+                     _generation = _timeout_generation]() noexcept {
                         auto _this = _weak_this.lock();
                         // It may be that the complete channel is gone in the meanwhile
                         if (!_this) return;
@@ -1064,6 +1070,7 @@ struct shared_process
                             if (!lock) continue;
 
                             // we were cancelled
+                            if (_generation != _this->_timeout_generation) return;
                             if (get_process_state(_this->_process).first != process_state::yield) {
                                 _this->try_broadcast();
                                 _this->_timeout_function_active = false;
-- 
2.43.0


From dbcf113acc520f7c44d1a66050c9e35a456effc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:59 +0000
Subject: [PATCH 10/23] fix: free_buffer of a process with a full buffer is
 zero

A channel accepts more values than its buffer holds, the difference wrapped
around to a huge number of free slots.
---
 include/stlab/concurrency/channel.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/stlab/concurrency/channel.hpp b/include/stlab/concurrency/channel.hpp
index bd1bd86..b2b5fcc 100644
--- a/include/stlab/concurrency/channel.hpp
+++ b/include/stlab/concurrency/channel.hpp
@@ -630,10 +630,10 @@ struct shared_process_sender_indexed : public shared_process_sender<Arg> {
 
     [[nodiscard]] auto free_buffer() const -> std::size_t override {
         std::unique_lock<std::mutex> lock(_shared_process._process_mutex);
-        return _shared_process._process_buffer_size == 0 ?
-                   std::numeric_limits<std::size_t>::max() :
-                   (_shared_process._process_buffer_size -
-                    _shared_process._queue.template queue_size<I>());
+        const std::size_t buffer_size = _shared_process._process_buffer_size;
+        const std::size_t queue_size = _shared_process._queue.template queue_size<I>();
+        if (buffer_size == 0) return std::numeric_limits<std::size_t>::max();
+        return queue_size < buffer_size ? buffer_size - queue_size : 0;
     }
 };
 
-- 
2.43.0


From 527deaa7da4495ad0c81b51f65fa0fe439b35d3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:13 +0000
Subject: [PATCH 11/23] fix: either the timeout of a process or the value that
 arrives before it runs the process, not both

---
 include/stlab/concurrency/channel.hpp | 106 +++++++++-----------------
 1 file changed, 37 insertions(+), 69 deletions(-)

diff --git a/include/stlab/concurrency/channel.hpp b/include/stlab/concurrency/channel.hpp
index b2b5fcc..84e040d 100644
--- a/include/stlab/concurrency/channel.hpp
+++ b/include/stlab/concurrency/channel.hpp
@@ -620,6 +620,7 @@ struct shared_process_sender_indexed : public shared_process_sender<Arg> {
                                                           _shared_process._timeout_function_active);
 
             _shared_process._process_running = _shared_process._process_running || do_run;
+            if (do_run) _shared_process._timeout_function_active = false; // cancels the timeout
         }
         if (do_run) _shared_process.run();
     }
@@ -746,9 +747,9 @@ struct shared_process
     // REVISIT (sparent) : I'm not certain final needs to be under the mutex
     bool _process_final = false;
 
-    std::mutex _timeout_function_control;
-    std::atomic_bool _timeout_function_active{false};
-    std::size_t _timeout_generation{0}; // counts the steps, under _timeout_function_control
+    // Whoever resets this, a timeout or a value that arrives before it, runs the process next
+    bool _timeout_function_active = false;
+    std::size_t _timeout_generation = 0;
 
     std::atomic_size_t _sender_count{0};
     std::atomic_size_t _receiver_count;
@@ -915,16 +916,6 @@ struct shared_process
     template <typename U>
     auto step() -> std::enable_if_t<has_process_yield_v<unwrap_reference_t<U>> &&
                                     !has_process_await_v<unwrap_reference_t<T>, Args...>> {
-        // in case that the timeout function is just been executed then we have to re-schedule
-        // the current run
-        lock_t lock(_timeout_function_control, std::try_to_lock);
-        if (!lock) {
-            run();
-            return;
-        }
-        _timeout_function_active = false;
-        ++_timeout_generation; // cancels a pending timeout
-
         /*
             While we are waiting we will flush the queue. The assumption here is that work
             is done on yield()
@@ -968,29 +959,7 @@ struct shared_process
                        std::chrono::nanoseconds::min()) {
                 broadcast(unwrap(*_process).yield());
             } else {
-                /* Schedule a timeout. */
-                _timeout_function_active = true;
-                execute_at(duration, _executor)(
-                    [_weak_this = make_weak_ptr(this->shared_from_this()),
-                     _generation = _timeout_generation]() noexcept {
-                        auto _this = _weak_this.lock();
-                        // It may be that the complete channel is gone in the meanwhile
-                        if (!_this) return;
-
-                        // try_lock can fail spuriously
-                        while (true) {
-                            lock_t lock(_this->_timeout_function_control, std::try_to_lock);
-                            if (!lock) continue;
-
-                            // we were cancelled
-                            if (_generation != _this->_timeout_generation) return;
-                            if (get_process_state(_this->_process).first != process_state::yield) {
-                                _this->try_broadcast();
-                                _this->_timeout_function_active = false;
-                            }
-                            return;
-                        }
-                    });
+                schedule_timeout(duration);
             }
         } catch (...) { // this catches exceptions during _process.await() and _process.yield()
             broadcast(std::move(std::current_exception()));
@@ -1000,16 +969,6 @@ struct shared_process
     template <typename U>
     auto step() -> std::enable_if_t<has_process_yield_v<unwrap_reference_t<U>> &&
                                     has_process_await_v<unwrap_reference_t<T>, Args...>> {
-        // in case that the timeout function is just been executed then we have to re-schedule
-        // the current run
-        lock_t lock(_timeout_function_control, std::try_to_lock);
-        if (!lock) {
-            run();
-            return;
-        }
-        _timeout_function_active = false;
-        ++_timeout_generation; // cancels a pending timeout
-
         /*
             While we are waiting we will flush the queue. The assumption here is that work
             is done on yield()
@@ -1055,35 +1014,44 @@ struct shared_process
                        std::chrono::nanoseconds::min()) {
                 broadcast(unwrap(*_process).yield());
             } else {
-                /* Schedule a timeout. */
-                _timeout_function_active = true;
-                execute_at(duration, _executor)(
-                    [_weak_this = make_weak_ptr(this->shared_from_this()),
-                     _generation = _timeout_generation]() noexcept {
-                        auto _this = _weak_this.lock();
-                        // It may be that the complete channel is gone in the meanwhile
-                        if (!_this) return;
-
-                        // try_lock can fail spuriously
-                        while (true) {
-                            lock_t lock(_this->_timeout_function_control, std::try_to_lock);
-                            if (!lock) continue;
-
-                            // we were cancelled
-                            if (_generation != _this->_timeout_generation) return;
-                            if (get_process_state(_this->_process).first != process_state::yield) {
-                                _this->try_broadcast();
-                                _this->_timeout_function_active = false;
-                            }
-                            return;
-                        }
-                    });
+                schedule_timeout(duration);
             }
         } catch (...) { // this catches exceptions during _process.await() and _process.yield()
             broadcast(std::move(std::current_exception()));
         }
     }
 
+    template <typename Duration>
+    void schedule_timeout(Duration duration) {
+        std::size_t generation{0};
+        {
+            std::unique_lock<std::mutex> lock(_process_mutex);
+            // A value may have arrived since the queue was found empty
+            if (_queue.empty()) {
+                _timeout_function_active = true;
+                generation = ++_timeout_generation;
+            }
+        }
+        if (!generation) {
+            run();
+            return;
+        }
+        execute_at(duration, _executor)([_weak_this = make_weak_ptr(this->shared_from_this()),
+                                         _generation = generation]() noexcept {
+            auto _this = _weak_this.lock();
+            // It may be that the complete channel is gone in the meanwhile
+            if (!_this) return;
+            {
+                std::unique_lock<std::mutex> lock(_this->_process_mutex);
+                // we were cancelled
+                if (!_this->_timeout_function_active || _generation != _this->_timeout_generation)
+                    return;
+                _this->_timeout_function_active = false;
+            }
+            _this->try_broadcast();
+        });
+    }
+
     void try_broadcast() {
         try {
             if (_process) broadcast(unwrap(*_process).yield());
-- 
2.43.0


From dc8404c9e14df00b3c1ae1334371fceb49f7fa9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:49 +0000
Subject: [PATCH 12/23] fix: a process is suspended until every process
 downstream has room, and no longer

---
 include/stlab/concurrency/channel.hpp | 114 ++++++++++++++++----------
 1 file changed, 71 insertions(+), 43 deletions(-)

diff --git a/include/stlab/concurrency/channel.hpp b/include/stlab/concurrency/channel.hpp
index 84e040d..505a23f 100644
--- a/include/stlab/concurrency/channel.hpp
+++ b/include/stlab/concurrency/channel.hpp
@@ -19,13 +19,14 @@
 #include <cstdint>
 #include <deque>
 #include <exception>
+#include <limits>
 #include <memory>
 #include <mutex>
-#include <numeric>
 #include <optional>
 #include <tuple>
 #include <utility>
 #include <variant>
+#include <vector>
 
 #include <stlab/concurrency/executor_base.hpp>
 #include <stlab/concurrency/traits.hpp>
@@ -673,14 +674,17 @@ struct downstream<R, std::enable_if_t<std::is_copy_constructible_v<R> || std::is
         stlab::for_each_n(begin(_data), n, [&](const auto& e) { e(args...); });
     }
 
-    [[nodiscard]] auto minimum_free_buffer() const -> std::size_t {
-        if (size() == 0) return 0;
-        // std::reduce with C++17
-        return std::accumulate(_data.cbegin(), _data.cend(),
-                               std::numeric_limits<std::size_t>::max(),
-                               [](auto val, const auto& e) {
-                                   return std::min(val, e.free_buffer() ? *e.free_buffer() : val);
-                               });
+    // This is called with a lock held, `keep` must outlive it
+    template <typename K>
+    [[nodiscard]] auto minimum_free_buffer(K& keep) const -> std::size_t {
+        auto result = std::numeric_limits<std::size_t>::max();
+        for (const auto& e : _data) {
+            auto p = e._p.lock();
+            if (!p) continue;
+            result = std::min(result, p->free_buffer());
+            keep.push_back(std::move(p));
+        }
+        return result;
     }
 };
 
@@ -703,9 +707,14 @@ struct downstream<R,
         if (_data) (*_data)(std::forward<Args>(args)...);
     }
 
-    [[nodiscard]] auto minimum_free_buffer() const -> std::size_t {
-        if (_data && (*_data).free_buffer()) return *(*_data).free_buffer();
-        return 0;
+    // This is called with a lock held, `keep` must outlive it
+    template <typename K>
+    [[nodiscard]] auto minimum_free_buffer(K& keep) const -> std::size_t {
+        auto p = _data ? _data->_p.lock() : nullptr;
+        if (!p) return std::numeric_limits<std::size_t>::max();
+        const auto result = p->free_buffer();
+        keep.push_back(std::move(p));
+        return result;
     }
 };
 
@@ -742,7 +751,9 @@ struct shared_process
     std::mutex _process_mutex;
 
     bool _process_running = false;
-    std::atomic_size_t _process_suspend_count{0};
+    bool _process_suspended = false; // until there is room downstream
+    bool _process_cleared = false;   // there was room for another one while it was scheduled
+    bool _process_continued = false; // and so it sends a second one without being scheduled again
     bool _process_close_queue = false;
     // REVISIT (sparent) : I'm not certain final needs to be under the mutex
     bool _process_final = false;
@@ -777,6 +788,13 @@ struct shared_process
         _receiver_count = !std::is_same_v<result_t, void>;
     }
 
+    ~shared_process() override {
+        // What is left in the queue no longer holds up whatever else is downstream of its source
+        tuple_for_each(_upstream, [](auto& u) {
+            if (u && u.use_count() > 1) u->clear_to_send();
+        });
+    }
+
     void add_receiver() override {
         if (std::is_same_v<result_t, void>) return;
         ++_receiver_count;
@@ -828,34 +846,44 @@ struct shared_process
         _process = std::nullopt;
     }
 
+    template <typename K>
+    auto has_room(K& keep) -> bool {
+        std::unique_lock<std::mutex> lock(_downstream_mutex);
+        return _downstream.minimum_free_buffer(keep) > 0;
+    }
+
     void clear_to_send() override {
+        std::vector<std::shared_ptr<void>> keep;
         {
             std::unique_lock<std::mutex> lock(_process_mutex);
-            // A final process continues only while it yields values in response to the close
-            if (_process_final && !_process_suspend_count) {
+            if (!_process_suspended) {
+                _process_cleared = _process_running && !_process_continued;
                 return;
             }
+            if (!has_room(keep)) return;
+            _process_suspended = false;
         }
+        resume(false);
+    }
 
+    // The process has sent what it had, and everything downstream has room for more
+    void resume(bool may_continue) {
+        bool do_continue = false;
         bool do_run = false;
         bool do_final = false;
         {
             const auto ps = get_process_state(_process);
             std::unique_lock<std::mutex> lock(_process_mutex);
-            if (_process_suspend_count > 0) --_process_suspend_count; // could be atomic?
-
-            if (!_process_suspend_count) {
-                if (ps.first == process_state::yield || !_queue.empty() || _process_close_queue) {
-                    do_run = true;
-                } else {
-                    _process_running = false;
-                    do_run = false;
-                    do_final = _process_final;
-                }
-            }
+            // A final process continues only while it yields values in response to the close
+            do_run = ps.first == process_state::yield || !_queue.empty() || _process_close_queue;
+            _process_running = do_run;
+            do_final = !do_run && _process_final;
+            do_continue = std::exchange(_process_cleared, false) && may_continue && do_run;
+            _process_continued = do_continue;
         }
         // Somebody told me that his name was Bill
-        if (do_run) run();
+        if (do_continue) this->template step<T>();
+        else if (do_run) run();
         if (do_final) finalize();
     }
 
@@ -1115,23 +1143,9 @@ struct shared_process
         */
 
         std::size_t n;
-        bool suspend_process;
         {
             std::unique_lock<std::mutex> lock(_downstream_mutex);
             n = _downstream.size();
-            suspend_process = _downstream.minimum_free_buffer() <= 1;
-        }
-
-        {
-            std::unique_lock<std::mutex> lock(_process_mutex);
-            if (suspend_process) {
-                /*
-                    Suspend for however many downstream processes we have + 1 for this process -
-                   that ensures that we are not kicked to run while still broadcasting.
-                */
-                _process_suspend_count = n + 1;
-            } else
-                _process_suspend_count = 1;
         }
         /*
             There is no lock on _downstream here. We only ever append to this deque so the first
@@ -1140,8 +1154,16 @@ struct shared_process
 
         _downstream.send(n, std::forward<A>(args)...);
 
-        clear_to_send(); // unsuspend this process and decrement the _process_suspend_count
-                         // immediately by 1
+        std::vector<std::shared_ptr<void>> keep;
+        {
+            std::unique_lock<std::mutex> lock(_process_mutex);
+            if (!has_room(keep)) {
+                // The process downstream that makes room continues this one
+                _process_suspended = true;
+                return;
+            }
+        }
+        resume(true);
     }
 
     void map(sender<result_t> f) override {
@@ -1544,6 +1566,9 @@ class sender<T, enable_if_copyable<T>> {
 
     friend struct detail::channel_combiner;
 
+    template <typename U, typename V>
+    friend struct detail::downstream;
+
     sender(ptr_t p) : _p(std::move(p)) {}
 
 public:
@@ -1611,6 +1636,9 @@ class sender<T, enable_if_not_copyable<T>> {
 
     friend struct detail::channel_combiner;
 
+    template <typename U, typename V>
+    friend struct detail::downstream;
+
     sender(ptr_t p) : _p(std::move(p)) {}
 
 public:
-- 
2.43.0


From f7be9e0857700715832086b75646520d2b6c6a74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:58 +0000
Subject: [PATCH 13/23] fix: a process closed by an error holds up nothing
 upstream

---
 include/stlab/concurrency/channel.hpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/include/stlab/concurrency/channel.hpp b/include/stlab/concurrency/channel.hpp
index 505a23f..67c7490 100644
--- a/include/stlab/concurrency/channel.hpp
+++ b/include/stlab/concurrency/channel.hpp
@@ -615,6 +615,7 @@ struct shared_process_sender_indexed : public shared_process_sender<Arg> {
         bool do_run;
         {
             std::unique_lock<std::mutex> lock(_shared_process._process_mutex);
+            if (_shared_process._process_dropping) return;
             _shared_process._queue.template append<I>(
                 std::forward<U>(u)); // TODO (sparent) : overwrite here.
             do_run = !_shared_process._receiver_count && (!_shared_process._process_running ||
@@ -634,7 +635,8 @@ struct shared_process_sender_indexed : public shared_process_sender<Arg> {
         std::unique_lock<std::mutex> lock(_shared_process._process_mutex);
         const std::size_t buffer_size = _shared_process._process_buffer_size;
         const std::size_t queue_size = _shared_process._queue.template queue_size<I>();
-        if (buffer_size == 0) return std::numeric_limits<std::size_t>::max();
+        if (buffer_size == 0 || _shared_process._process_dropping)
+            return std::numeric_limits<std::size_t>::max();
         return queue_size < buffer_size ? buffer_size - queue_size : 0;
     }
 };
@@ -757,6 +759,7 @@ struct shared_process
     bool _process_close_queue = false;
     // REVISIT (sparent) : I'm not certain final needs to be under the mutex
     bool _process_final = false;
+    bool _process_dropping = false; // closed by an error
 
     // Whoever resets this, a timeout or a value that arrives before it, runs the process next
     bool _timeout_function_active = false;
@@ -1115,6 +1118,15 @@ struct shared_process
             if (error || !_process) {
                 // The error closes this process, whatever still arrives is dropped
                 finalize();
+                queue_strategy_t dropped;
+                {
+                    std::unique_lock<std::mutex> lock(_process_mutex);
+                    _process_dropping = true;
+                    std::swap(dropped, _queue);
+                }
+                tuple_for_each(_upstream, [](auto& u) {
+                    if (u) u->clear_to_send();
+                });
                 task_done();
             } else {
                 try {
-- 
2.43.0


From 7362287d25a8663cb8da5c189b134543cd400171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:58 +0000
Subject: [PATCH 14/23] fix: copying a ready receiver does not add a receiver

---
 include/stlab/concurrency/channel.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stlab/concurrency/channel.hpp b/include/stlab/concurrency/channel.hpp
index 67c7490..279df45 100644
--- a/include/stlab/concurrency/channel.hpp
+++ b/include/stlab/concurrency/channel.hpp
@@ -1491,7 +1491,7 @@ public:
     }
 
     receiver(const receiver& x) : _p(x._p), _ready(x._ready) {
-        if (_p) _p->add_receiver();
+        if (!_ready && _p) _p->add_receiver(); // only what is not ready is removed
     }
 
     receiver(receiver&&) noexcept = default;
-- 
2.43.0


From f3662298f8328f44d876bc90a629b723711b871f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:58 +0000
Subject: [PATCH 15/23] fix: assigning to a sender or receiver releases what it
 held

---
 include/stlab/concurrency/channel.hpp | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/include/stlab/concurrency/channel.hpp b/include/stlab/concurrency/channel.hpp
index 279df45..7457e37 100644
--- a/include/stlab/concurrency/channel.hpp
+++ b/include/stlab/concurrency/channel.hpp
@@ -1502,7 +1502,12 @@ public:
         return *this = receiver(x);
     }
 
-    auto operator=(receiver&& x) noexcept -> receiver& = default;
+    auto operator=(receiver&& x) noexcept -> receiver& {
+        receiver tmp(std::move(x)); // releases what this was a receiver of
+        std::swap(_p, tmp._p);
+        std::swap(_ready, tmp._ready);
+        return *this;
+    }
 
     void set_ready() {
         if (!_ready && _p) _p->remove_receiver();
@@ -1603,7 +1608,11 @@ public:
         return *this = sender(x);
     }
 
-    auto operator=(sender&&) noexcept -> sender& = default;
+    auto operator=(sender&& x) noexcept -> sender& {
+        sender tmp(std::move(x)); // releases what this was a sender of
+        std::swap(_p, tmp._p);
+        return *this;
+    }
 
     void swap(sender& x) noexcept { std::swap(*this, x); }
 
@@ -1664,7 +1673,11 @@ public:
     sender(const sender& x) = delete;
     sender(sender&&) noexcept = default;
     auto operator=(const sender& x) -> sender& = delete;
-    auto operator=(sender&&) noexcept -> sender& = default;
+    auto operator=(sender&& x) noexcept -> sender& {
+        sender tmp(std::move(x)); // releases what this was a sender of
+        std::swap(_p, tmp._p);
+        return *this;
+    }
 
     void swap(sender& x) noexcept { std::swap(*this, x); }
 
-- 
2.43.0


From a31ddf046648914e750e5091fc37df0b3c19b55b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:15 +0000
Subject: [PATCH 16/23] fix: reverse_append relinks the nodes of the range

---
 include/stlab/algorithm/reverse.hpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/include/stlab/algorithm/reverse.hpp b/include/stlab/algorithm/reverse.hpp
index aeb2a28..8525649 100644
--- a/include/stlab/algorithm/reverse.hpp
+++ b/include/stlab/algorithm/reverse.hpp
@@ -31,13 +31,20 @@ namespace unsafe {
 
 template <STLAB_CONCEPT(FORWARD_NODE_ITERATOR) I>
 auto reverse_append(I first, I last, I end) -> I {
+    if (first == last) return end;
+
+    // The link to end is made last, an increment may depend on the links of what follows the range
+    const I back(first);
+    I result(first);
+    ++first;
     while (first != last) {
-        I prior(end);
+        I node(first);
         ++first;
-        stlab::unsafe::set_next(prior, end);
-        end = prior;
+        stlab::unsafe::set_next(node, result);
+        result = node;
     }
-    return end;
+    stlab::unsafe::set_next(back, end);
+    return result;
 }
 
 /// Reverses `range` and appends `end`.  Returns the beginning of the reversed range such that
-- 
2.43.0


From 8234f772ff2ac20ebe4dd8d42d4bfafa9d7fde5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:10 +0000
Subject: [PATCH 17/23] fix: the end of a filtered fullorder range can be
 decremented

---
 include/stlab/forest.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/stlab/forest.hpp b/include/stlab/forest.hpp
index 1474226..2c3b92f 100644
--- a/include/stlab/forest.hpp
+++ b/include/stlab/forest.hpp
@@ -246,6 +246,9 @@ struct filter_fullorder_iterator {
     filter_fullorder_iterator(I f, I l) :
         _x(skip_forward(f, l, P())), _inside(true), _first(f), _last(l) {}
 
+    filter_fullorder_iterator(I x, I f, I l, P p) : // x is in [f, l], and is not skipped
+        _x(x), _inside(true), _first(f), _last(l), _predicate(p) {}
+
     template <class U>
     filter_fullorder_iterator(const filter_fullorder_iterator<U, P>& x) :
         _x(x.base()), _inside(x._inside), _first(x._first), _last(x._last),
@@ -1170,7 +1173,7 @@ auto filter_fullorder_range(R& x, P p) {
     using iterator = filter_fullorder_iterator<typename R::iterator, P>;
 
     return forest_range<iterator>{iterator(std::begin(x), std::end(x), p),
-                                  iterator(std::end(x), std::end(x), p)};
+                                  iterator(std::end(x), std::begin(x), std::end(x), p)};
 }
 
 template <class R, typename P> // R models FullorderRange
@@ -1178,7 +1181,7 @@ auto filter_fullorder_range(const R& x, P p) {
     using iterator = filter_fullorder_iterator<typename R::const_iterator, P>;
 
     return forest_range<iterator>{iterator(std::begin(x), std::end(x), p),
-                                  iterator(std::end(x), std::end(x), p)};
+                                  iterator(std::end(x), std::begin(x), std::end(x), p)};
 }
 
 /**************************************************************************************************/
-- 
2.43.0


From edc2f8755d5a22ce90e91b9f83842bbfecf8159b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:10 +0000
Subject: [PATCH 18/23] fix: the end of a depth range has the depth of the root

---
 include/stlab/forest.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/stlab/forest.hpp b/include/stlab/forest.hpp
index 2c3b92f..f6025df 100644
--- a/include/stlab/forest.hpp
+++ b/include/stlab/forest.hpp
@@ -1206,14 +1206,14 @@ template <class R> // R models FullorderRange
 auto depth_range(R& x) {
     using iterator = depth_fullorder_iterator<typename R::iterator>;
 
-    return forest_range<iterator>{iterator(std::begin(x)), iterator(std::end(x))};
+    return forest_range<iterator>{iterator(std::begin(x)), iterator(std::end(x), -1)};
 }
 
 template <class R> // R models FullorderRange
 auto depth_range(const R& x) {
     using iterator = depth_fullorder_iterator<typename R::const_iterator>;
 
-    return forest_range<iterator>{iterator(std::begin(x)), iterator(std::end(x))};
+    return forest_range<iterator>{iterator(std::begin(x)), iterator(std::end(x), -1)};
 }
 
 /**************************************************************************************************/
-- 
2.43.0


From 56c1dd7e46002095dca91ddd0902c1c3ab6e1172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:10 +0000
Subject: [PATCH 19/23] fix: equal_shape of forests of unknown size, one of
 which begins like the other

---
 include/stlab/forest_algorithms.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stlab/forest_algorithms.hpp b/include/stlab/forest_algorithms.hpp
index 9ec9837..c035ccf 100644
--- a/include/stlab/forest_algorithms.hpp
+++ b/include/stlab/forest_algorithms.hpp
@@ -26,7 +26,7 @@ auto equal_shape(const Forest1& x, const Forest2& y) -> bool {
     for (auto first(x.begin()), last(x.end()); first != last; ++first, ++pos) {
         if (first.edge() != pos.edge()) return false;
     }
-    return true;
+    return pos == y.end();
 }
 
 /**************************************************************************************************/
-- 
2.43.0


From 8d88f93cc7870793d3363f65d2298e778dbc67c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:46 +0000
Subject: [PATCH 20/23] fix: task returned a copy where its signature returns a
 reference

---
 include/stlab/concurrency/task.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stlab/concurrency/task.hpp b/include/stlab/concurrency/task.hpp
index 4e4e541..2410554 100644
--- a/include/stlab/concurrency/task.hpp
+++ b/include/stlab/concurrency/task.hpp
@@ -262,7 +262,7 @@ public:
     }
 
     template <class... Brgs>
-    auto operator()(Brgs&&... brgs) noexcept(NoExcept) {
+    auto operator()(Brgs&&... brgs) noexcept(NoExcept) -> R {
         return _invoke(&_model, std::forward<Brgs>(brgs)...);
     }
 
-- 
2.43.0


From de5bfc67d71ee7b9568fd898349a9411c0019642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:15 +0000
Subject: [PATCH 21/23] fix: assigning to a function wrapped by a
 progress_tracker kept the count of the one it replaced

---
 include/stlab/concurrency/progress.hpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/stlab/concurrency/progress.hpp b/include/stlab/concurrency/progress.hpp
index 1617665..041364c 100644
--- a/include/stlab/concurrency/progress.hpp
+++ b/include/stlab/concurrency/progress.hpp
@@ -12,6 +12,7 @@
 #include <atomic>
 #include <functional>
 #include <memory>
+#include <utility>
 
 namespace stlab {
 namespace detail {
@@ -51,16 +52,15 @@ struct tracker_client {
         if (p) p->add_task();
     }
 
-    tracker_client& operator=(const tracker_client& x) {
-        _f = x._f;
-        _p = x._p;
-        auto p = _p.lock();
-        if (p) p->add_task();
-        return *this;
-    }
+    tracker_client& operator=(const tracker_client& x) { return *this = tracker_client(x); }
 
     tracker_client(tracker_client&&) = default;
-    tracker_client& operator=(tracker_client&&) = default;
+    tracker_client& operator=(tracker_client&& x) {
+        tracker_client t(std::move(x)); // drops the task this one has been until now
+        std::swap(_f, t._f);
+        std::swap(_p, t._p);
+        return *this;
+    }
 
     tracker_client(std::shared_ptr<tracker_server>& p, F&& f) : _f(std::move(f)), _p(p) {
         p->add_task();
-- 
2.43.0


From 7925bea95f09a8512345e2ef57c09b9452473dd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:44 +0000
Subject: [PATCH 22/23] fix: a process handed over by reference got close
 instead of set_error

---
 include/stlab/concurrency/channel.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stlab/concurrency/channel.hpp b/include/stlab/concurrency/channel.hpp
index 7457e37..8cdb93d 100644
--- a/include/stlab/concurrency/channel.hpp
+++ b/include/stlab/concurrency/channel.hpp
@@ -926,7 +926,7 @@ struct shared_process
         if (message) {
             auto error = find_argument_error(*message);
             if (error) {
-                if (has_set_process_error_v<T>)
+                if (has_set_process_error_v<unwrap_reference_t<T>>)
                     set_process_error(*_process, std::move(*error));
                 else
                     do_close = true;
-- 
2.43.0


From 72437a7f8c895fa34244c952186d73e62e0e5404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:40:09 +0000
Subject: [PATCH 23/23] fix: blocking_get_for returned nothing

---
 include/stlab/concurrency/await.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stlab/concurrency/await.hpp b/include/stlab/concurrency/await.hpp
index 8780d03..7aba406 100644
--- a/include/stlab/concurrency/await.hpp
+++ b/include/stlab/concurrency/await.hpp
@@ -152,7 +152,7 @@ auto blocking_get(future<T> x) -> T {
 template <class T>
 [[deprecated("Use await_for instead.")]]
 auto blocking_get_for(future<T> x, const std::chrono::nanoseconds& timeout) -> future<T> {
-    await_for(std::move(x), timeout);
+    return await_for(std::move(x), timeout);
 }
 
 template <class T>
-- 
2.43.0

