From 03fae58020184350b8116b982199e8e80ca54d68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:28 +0000
Subject: [PATCH 01/21] fix: comparing an iterator of an empty
 generator<nothing_t> with end() read a null coroutine handle

---
 include/kelcoro/generator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/kelcoro/generator.hpp b/include/kelcoro/generator.hpp
index 4ae3185..3a31069 100644
--- a/include/kelcoro/generator.hpp
+++ b/include/kelcoro/generator.hpp
@@ -177,7 +177,7 @@ struct generator_iterator {
     if constexpr (!std::is_same_v<nothing_t, Yield>) {
       return self->current_result == nullptr;
     } else {
-      return self->top.done();
+      return self->empty();
     }
   }
   constexpr reference operator*() const noexcept {
-- 
2.43.0


From 5437aafd87df5df4a538e3163854f7c0d7dd2e33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:55 +0000
Subject: [PATCH 02/21] fix: generator reset() did not retarget the consumer,
 clear()/release() left a stale current value

---
 include/kelcoro/generator.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/kelcoro/generator.hpp b/include/kelcoro/generator.hpp
index 3a31069..4585fec 100644
--- a/include/kelcoro/generator.hpp
+++ b/include/kelcoro/generator.hpp
@@ -304,11 +304,14 @@ struct generator : enable_resource_deduction {
   constexpr void reset(handle_type handle) noexcept {
     clear();
     top = handle;
+    if (top)
+      prepare_to_start();
   }
 
   // postcondition: .empty()
   // its caller responsibility to correctly destroy handle
   [[nodiscard]] constexpr handle_type release() noexcept {
+    current_result = nullptr;
     return std::exchange(top, nullptr);
   }
   [[nodiscard]] constexpr handle_type raw_handle() const noexcept {
@@ -320,6 +323,7 @@ struct generator : enable_resource_deduction {
     if (top) {
       top.destroy();
       top = nullptr;
+      current_result = nullptr;
     }
   }
   constexpr ~generator() {
-- 
2.43.0


From d5b55f899d9736c449d52f1216b0fd6590baaed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:02 +0000
Subject: [PATCH 03/21] fix: channel_iterator::equivalent compared addresses of
 its own members, owner() did not compile

---
 include/kelcoro/channel.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/kelcoro/channel.hpp b/include/kelcoro/channel.hpp
index 0dcb699..06c0511 100644
--- a/include/kelcoro/channel.hpp
+++ b/include/kelcoro/channel.hpp
@@ -155,10 +155,10 @@ struct channel_iterator {
 
   // return true if they are attached to same 'channel' object
   constexpr bool equivalent(const channel_iterator& other) const noexcept {
-    return std::addressof(chan) == std::addressof(other.chan);
+    return chan == other.chan;
   }
   channel<Yield>& owner() const noexcept {
-    return chan;
+    return *chan;
   }
 
   constexpr bool operator==(std::default_sentinel_t) const noexcept {
-- 
2.43.0


From 68390e17d1c9c1888c9fcacd4f8f3122cc7ebcd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:47 +0000
Subject: [PATCH 04/21] fix: moving or swapping a channel left the coroutine
 delivering to the old object, clear()/release() left a stale current value

---
 include/kelcoro/channel.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/kelcoro/channel.hpp b/include/kelcoro/channel.hpp
index 06c0511..a4915b5 100644
--- a/include/kelcoro/channel.hpp
+++ b/include/kelcoro/channel.hpp
@@ -238,6 +238,10 @@ struct channel : enable_resource_deduction {
     std::swap(handle, other.handle);
     std::swap(top, other.top);
     std::swap(exception, other.exception);
+    if (top)
+      top.promise()._consumer = this;
+    if (other.top)
+      other.top.promise()._consumer = std::addressof(other);
   }
   friend void swap(channel& a, channel& b) noexcept {
     a.swap(b);
@@ -250,6 +254,7 @@ struct channel : enable_resource_deduction {
   // postcondition: .empty()
   // after this method its caller responsibility to correctly destroy 'handle'
   [[nodiscard]] constexpr handle_type release() noexcept {
+    current_result = nullptr;
     return std::exchange(top, nullptr);
   }
   [[nodiscard]] constexpr handle_type raw_handle() const noexcept {
@@ -261,6 +266,7 @@ struct channel : enable_resource_deduction {
     if (top) {
       top.destroy();
       top = nullptr;
+      current_result = nullptr;
     }
   }
   ~channel() {
-- 
2.43.0


From b19eefa05b9d1b9ac3c5a891f18f1b0a874da220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:28 +0000
Subject: [PATCH 05/21] fix: async_task could not be created with a memory
 resource (final suspend did not accept the resourced promise)

---
 include/kelcoro/async_task.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/kelcoro/async_task.hpp b/include/kelcoro/async_task.hpp
index e5bccae..d711025 100644
--- a/include/kelcoro/async_task.hpp
+++ b/include/kelcoro/async_task.hpp
@@ -33,8 +33,10 @@ struct async_task_promise : return_block<Result> {
     static bool await_ready() noexcept {
       return false;
     }
-    bool await_suspend(std::coroutine_handle<async_task_promise> handle) const noexcept {
-      auto& p = handle.promise();
+    // promise type is deduced because it may be inheritor (resourced_promise)
+    template <typename Promise>
+    bool await_suspend(std::coroutine_handle<Promise> handle) const noexcept {
+      async_task_promise& p = handle.promise();
       p.ready.exchange(true, std::memory_order::acq_rel);
       p.ready.notify_one();
       // continue and destroy if ref count == 0
-- 
2.43.0


From 275c9a2a4c9ecec7248db06c03b67df8ae8f87ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:28 +0000
Subject: [PATCH 06/21] fix: this_coro::handle and this_coro::stop_token did
 not compile in coroutines with a memory resource

---
 include/kelcoro/common.hpp         | 6 ++++--
 include/kelcoro/logical_thread.hpp | 5 +++--
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/include/kelcoro/common.hpp b/include/kelcoro/common.hpp
index db6b327..0062e9f 100644
--- a/include/kelcoro/common.hpp
+++ b/include/kelcoro/common.hpp
@@ -202,8 +202,10 @@ struct KELCORO_CO_AWAIT_REQUIRED get_handle_t {
     static constexpr bool await_ready() noexcept {
       return false;
     }
-    KELCORO_ASSUME_NOONE_SEES bool await_suspend(std::coroutine_handle<PromiseType> handle) noexcept {
-      handle_ = handle;
+    // P may be inheritor of PromiseType (resourced_promise), assume addresses are same
+    template <typename P>
+    KELCORO_ASSUME_NOONE_SEES bool await_suspend(std::coroutine_handle<P> handle) noexcept {
+      handle_ = std::coroutine_handle<PromiseType>::from_address(handle.address());
       return false;
     }
     [[nodiscard]] std::coroutine_handle<PromiseType> await_resume() const noexcept {
diff --git a/include/kelcoro/logical_thread.hpp b/include/kelcoro/logical_thread.hpp
index 7749945..278b67a 100644
--- a/include/kelcoro/logical_thread.hpp
+++ b/include/kelcoro/logical_thread.hpp
@@ -98,8 +98,9 @@ struct logical_thread_promise {
     static bool await_ready() noexcept {
       return false;
     }
-    KELCORO_ASSUME_NOONE_SEES bool await_suspend(
-        std::coroutine_handle<logical_thread_promise> handle) noexcept {
+    // promise type is deduced because it may be inheritor (resourced_promise)
+    template <typename Promise>
+    KELCORO_ASSUME_NOONE_SEES bool await_suspend(std::coroutine_handle<Promise> handle) noexcept {
       stop_state = &handle.promise().stop_requested_;
       return false;  // never suspend rly
     }
-- 
2.43.0


From d3c8e084803172aff047a47cf8cdc4a1489c38d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:28 +0000
Subject: [PATCH 07/21] fix: co_await this_coro::operation_hash did not
 compile, in channels also because of a private member

---
 include/kelcoro/channel.hpp        | 2 ++
 include/kelcoro/operation_hash.hpp | 5 +++++
 2 files changed, 7 insertions(+)

diff --git a/include/kelcoro/channel.hpp b/include/kelcoro/channel.hpp
index a4915b5..9b4bcaa 100644
--- a/include/kelcoro/channel.hpp
+++ b/include/kelcoro/channel.hpp
@@ -18,6 +18,8 @@ struct channel_promise : not_movable {
   friend channel_iterator<Yield>;
   friend noexport::attach_leaf<channel<Yield>>;
   friend noexport::hold_value_until_resume<Yield>;
+  template <typename>
+  friend struct operation_hash;
 
   // invariant: root != nullptr
   channel_promise* root = this;
diff --git a/include/kelcoro/operation_hash.hpp b/include/kelcoro/operation_hash.hpp
index e71bc98..7e182cf 100644
--- a/include/kelcoro/operation_hash.hpp
+++ b/include/kelcoro/operation_hash.hpp
@@ -36,6 +36,11 @@ static size_t do_hash(const void* ptr) noexcept {
 struct KELCORO_CO_AWAIT_REQUIRED op_hash_t {
   operation_hash_t hash;
 
+  // this_coro::operation_hash is a constant, so each co_await uses its own copy
+  constexpr op_hash_t operator co_await() const noexcept {
+    return *this;
+  }
+
   static constexpr bool await_ready() noexcept {
     return false;
   }
-- 
2.43.0


From bb6982dc0a5f5f3cb1a57726d502a382301ae802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:28 +0000
Subject: [PATCH 08/21] fix: expected::error() did not compile

---
 include/kelcoro/noexport/expected.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/kelcoro/noexport/expected.hpp b/include/kelcoro/noexport/expected.hpp
index dd4410d..b972d9f 100644
--- a/include/kelcoro/noexport/expected.hpp
+++ b/include/kelcoro/noexport/expected.hpp
@@ -56,12 +56,12 @@ struct expected {
   // precondition: !has_value()
   E& error() noexcept {
     assert(!has_value());
-    return std::get_if<1>(&data);
+    return *std::get_if<1>(&data);
   }
   // precondition: !has_value()
   const E& error() const noexcept {
     assert(!has_value());
-    return std::get_if<1>(&data);
+    return *std::get_if<1>(&data);
   }
 };
 
-- 
2.43.0


From 5e3da9148b66d7f25446678c1d03a2947e81d54e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:54 +0000
Subject: [PATCH 09/21] fix: latch awaiters read their own memory after
 publishing themselves, when the waiter may already be resumed and gone

---
 include/kelcoro/latch.hpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/include/kelcoro/latch.hpp b/include/kelcoro/latch.hpp
index 8d5e25c..a172255 100644
--- a/include/kelcoro/latch.hpp
+++ b/include/kelcoro/latch.hpp
@@ -23,10 +23,12 @@ struct latch {
     }
     void await_suspend(std::coroutine_handle<> handle) noexcept {
       node.task = handle;
-      l.stack.push(&node);
+      // to stack, because after push 'this' may be destroyed (someone may already resume 'handle')
+      latch& lt = l;
+      lt.stack.push(&node);
       // in case if 'ready' changed from 'false' to 'true' wakeup all who call 'wait'
-      if (l.ready())
-        l.wakeup_all();
+      if (lt.ready())
+        lt.wakeup_all();
     }
     static void await_resume() noexcept {
     }
@@ -48,8 +50,11 @@ struct latch {
     }
     void await_suspend(std::coroutine_handle<> handle) noexcept {
       node.task = handle;
-      l.stack.push(&node);
-      l.count_down(n);
+      // to stack, because after push 'this' may be destroyed (someone may already resume 'handle')
+      latch& lt = l;
+      const ptrdiff_t count = n;
+      lt.stack.push(&node);
+      lt.count_down(count);
     }
     static void await_resume() noexcept {
     }
-- 
2.43.0


From 89a532120f08b61debf1e08966e9691f0936b633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:06 +0000
Subject: [PATCH 10/21] fix: when_any over events kept using its awaiter after
 a concurrent notification had resumed (and freed) the waiter

---
 include/kelcoro/events.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/kelcoro/events.hpp b/include/kelcoro/events.hpp
index 5691981..831fd08 100644
--- a/include/kelcoro/events.hpp
+++ b/include/kelcoro/events.hpp
@@ -205,9 +205,11 @@ KELCORO_CO_AWAIT_REQUIRED constexpr auto when_any(event<Inputs>&... events) {
           };
         }
       };
+      // to stack, because first notified event resumes 'handle' and awaiter may die while we are subscribing
+      std::tuple<event<Inputs>&...> events_on_stack = events_;
       [&]<size_t... Is>(std::index_sequence<Is...>) {
-        (std::get<Is>(events_).set_callback(
-             create_cb_for(std::type_identity<Inputs>{}, std::integral_constant<size_t, Is>{})),
+        (std::get<Is>(events_on_stack)
+             .set_callback(create_cb_for(std::type_identity<Inputs>{}, std::integral_constant<size_t, Is>{})),
          ...);
       }  // INVOKED HERE
       (std::index_sequence_for<Inputs...>{});
-- 
2.43.0


From 02de2021ee2d7cf686144b217e5556ac4044cade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:29 +0000
Subject: [PATCH 11/21] fix: fixed_array took memory from the given resource
 but returned it to new/delete and reported that one

---
 include/kelcoro/noexport/fixed_array.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/kelcoro/noexport/fixed_array.hpp b/include/kelcoro/noexport/fixed_array.hpp
index 5641054..895b098 100644
--- a/include/kelcoro/noexport/fixed_array.hpp
+++ b/include/kelcoro/noexport/fixed_array.hpp
@@ -27,10 +27,10 @@ struct fixed_array {
     std::swap(resource, rhs.resource);
     return *this;
   }
-  fixed_array(size_t n, std::pmr::memory_resource& resource = *std::pmr::new_delete_resource()) : n(n) {
+  fixed_array(size_t n, std::pmr::memory_resource& r = *std::pmr::new_delete_resource()) : n(n), resource(&r) {
     if (n == 0)
       return;
-    arr = (T*)resource.allocate(sizeof(T) * n, alignof(T));
+    arr = (T*)r.allocate(sizeof(T) * n, alignof(T));
     std::uninitialized_default_construct_n(arr, n);
   }
 
-- 
2.43.0


From 250fb8b7b4e5064a760fe00218b83c594e29c059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:29 +0000
Subject: [PATCH 12/21] fix: stack_resource::reuse_memory did not make the
 initial buffer available again

---
 include/kelcoro/stack_memory_resource.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/kelcoro/stack_memory_resource.hpp b/include/kelcoro/stack_memory_resource.hpp
index 37f23e3..3b4435b 100644
--- a/include/kelcoro/stack_memory_resource.hpp
+++ b/include/kelcoro/stack_memory_resource.hpp
@@ -179,6 +179,7 @@ struct stack_resource {
       m = b;
       drop_cur_chunk();
     }
+    m = b;
   }
 };
 
-- 
2.43.0


From b89a0dc701b67277dc444576ea1c633ce75929f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:29 +0000
Subject: [PATCH 13/21] fix: polymorphic_resource ignored the resource
 installed by dd::pmr::set_default_resource

---
 include/kelcoro/memory_support.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/kelcoro/memory_support.hpp b/include/kelcoro/memory_support.hpp
index 7e2de52..9748b7b 100644
--- a/include/kelcoro/memory_support.hpp
+++ b/include/kelcoro/memory_support.hpp
@@ -126,7 +126,7 @@ struct polymorphic_resource {
  public:
   polymorphic_resource() noexcept : passed(std::exchange(passed_resource(), nullptr)) {
     if (!passed)
-      passed = std::pmr::get_default_resource();
+      passed = default_resource().load(std::memory_order_acquire);
     assert(passed != nullptr);
   }
   polymorphic_resource(std::pmr::memory_resource& m) noexcept : passed(&m) {
-- 
2.43.0


From e7837ec114320219d9ed2f57c6132a8a85190f37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:29 +0000
Subject: [PATCH 14/21] fix: ~thread_pool linked one dead pill into several
 queues when workers were already stopped by request_stop

---
 include/kelcoro/thread_pool.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/kelcoro/thread_pool.hpp b/include/kelcoro/thread_pool.hpp
index 859facb..59ded03 100644
--- a/include/kelcoro/thread_pool.hpp
+++ b/include/kelcoro/thread_pool.hpp
@@ -278,11 +278,13 @@ struct thread_pool {
     // You can't just reset it because the queue is inside the worker,
     // and in that case, while the stop was
     // going on, someone could push into the dead queue.
-    task_node pill = task_node::deadpill();
     for (size_t i = 0; i < threads.size(); i++) {
       if (threads[i].joinable()) {
+        // each queue needs its own pill: if worker is already stopped by 'request_stop', pill stays in queue
+        task_node pill = task_node::deadpill();
         queues[i].push(&pill);
         threads[i].join();
+        noexport::cancel_tasks(queues[i].pop_all());
       }
     }
     for (auto& q : queues)
-- 
2.43.0


From 7c17faf84fe6c877f2c8a1faac7f7705655b2eb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:09 +0000
Subject: [PATCH 15/21] fix: expected stored a value as an error (or an error
 as a value) when the other alternative was the better conversion, and could
 not be copied from a non-const lvalue

---
 include/kelcoro/noexport/expected.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/kelcoro/noexport/expected.hpp b/include/kelcoro/noexport/expected.hpp
index b972d9f..d5fb1f0 100644
--- a/include/kelcoro/noexport/expected.hpp
+++ b/include/kelcoro/noexport/expected.hpp
@@ -29,17 +29,18 @@ struct expected {
   expected() = default;
 
   template <typename U = T>
-  expected(U&& arg) : data(std::forward<U>(arg)) {
+    requires(!std::is_same_v<std::remove_cvref_t<U>, expected>)
+  expected(U&& arg) : data(std::in_place_index<0>, std::forward<U>(arg)) {
   }
   template <typename U>
-  expected(unexpected<U> u) : data(std::move(u.value)) {
+  expected(unexpected<U> u) : data(std::in_place_index<1>, std::move(u.value)) {
   }
 
   explicit operator bool() const noexcept {
     return has_value();
   }
   [[nodiscard]] bool has_value() const noexcept {
-    return std::holds_alternative<value_type>(data);
+    return data.index() == 0;
   }
   value_type& operator*() noexcept
     requires(!std::is_void_v<T>)
-- 
2.43.0


From df7bc5909db974a54acfd1f31816ff2ee3ca5e7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:00 +0000
Subject: [PATCH 16/21] fix: an exception from constructing the result in the
 return place terminated instead of reaching the awaiter

---
 include/kelcoro/common.hpp | 4 ++--
 include/kelcoro/task.hpp   | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/kelcoro/common.hpp b/include/kelcoro/common.hpp
index 0062e9f..1dd1aed 100644
--- a/include/kelcoro/common.hpp
+++ b/include/kelcoro/common.hpp
@@ -74,7 +74,7 @@ struct return_block {
   // args for case when T is not default contructible
   // must be used with co_return dd::rvo
   template <typename... Args>
-  constexpr T& return_place(Args&&... args) noexcept {
+  constexpr T& return_place(Args&&... args) noexcept(std::is_nothrow_constructible_v<T, Args&&...>) {
     return storage.emplace(std::forward<Args>(args)...);
   }
 };
@@ -98,7 +98,7 @@ struct return_block<T> {
   // args for case when T is not default contructible
   // must be used with co_return dd::rvo
   template <typename... Args>
-  constexpr T& return_place(Args&&... args) noexcept {
+  constexpr T& return_place(Args&&... args) noexcept(std::is_nothrow_constructible_v<T, Args&&...>) {
     return *std::construct_at(std::addressof(storage), std::forward<Args>(args)...);
   }
 };
diff --git a/include/kelcoro/task.hpp b/include/kelcoro/task.hpp
index 1f67e7c..55dff00 100644
--- a/include/kelcoro/task.hpp
+++ b/include/kelcoro/task.hpp
@@ -22,7 +22,7 @@ struct KELCORO_CO_AWAIT_REQUIRED get_return_place_t {
       return false;
     }
     template <typename Promise>
-    bool await_suspend(std::coroutine_handle<Promise> handle) noexcept {
+    bool await_suspend(std::coroutine_handle<Promise> handle) noexcept(noexcept(handle.promise().return_place())) {
       place = std::addressof(handle.promise().return_place());
       return false;
     }
-- 
2.43.0


From e589d7a8547043d70d523a3534673fffdbba9f28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:34 +0000
Subject: [PATCH 17/21] fix: destroy_and_transfer_control_to was inlined into
 the coroutine it destroys, so its locals could live in the freed frame

---
 include/kelcoro/common.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/kelcoro/common.hpp b/include/kelcoro/common.hpp
index 1dd1aed..95eb86b 100644
--- a/include/kelcoro/common.hpp
+++ b/include/kelcoro/common.hpp
@@ -261,7 +261,8 @@ struct [[nodiscard("co_await it!")]] destroy_and_transfer_control_to {
   static bool await_ready() noexcept {
     return false;
   }
-  KELCORO_ASSUME_NOONE_SEES std::coroutine_handle<> await_suspend(std::coroutine_handle<> self) noexcept {
+  // must not be inlined into coroutine (KELCORO_ASSUME_NOONE_SEES): its local variables must outlive the frame
+  std::coroutine_handle<> await_suspend(std::coroutine_handle<> self) noexcept {
     // move it to stack memory to save from destruction
     auto w = who_waits;
     self.destroy();
-- 
2.43.0


From d6947d44a6b9bfdd8027499dba2c2ffb34848e96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:50 +0000
Subject: [PATCH 18/21] fix: *it++ = x on generator_output_iterator resumed the
 generator before the assignment

---
 include/kelcoro/generator.hpp | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/include/kelcoro/generator.hpp b/include/kelcoro/generator.hpp
index 4585fec..053d02b 100644
--- a/include/kelcoro/generator.hpp
+++ b/include/kelcoro/generator.hpp
@@ -228,9 +228,21 @@ struct generator_output_iterator : generator_iterator<Yield> {
     base_t::operator++();
     return *this;
   }
-  constexpr generator_output_iterator& operator++(int) {
-    base_t::operator++();
-    return *this;
+  // '*it++ = x' must be same as '*it = x; ++it', so generator is resumed after assignment
+  struct post_increment : not_movable {
+    generator_output_iterator& it;
+
+    constexpr explicit post_increment(generator_output_iterator& it) noexcept : it(it) {
+    }
+    constexpr Yield& operator*() const noexcept {
+      return *it;
+    }
+    constexpr ~post_increment() noexcept(false) {
+      ++it;
+    }
+  };
+  constexpr post_increment operator++(int) {
+    return post_increment{*this};
   }
 };
 
-- 
2.43.0


From 056cca441b45592ab21b2831f05916cc672031f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:00 +0000
Subject: [PATCH 19/21] fix: a throwing copy of the notified value lost the
 event's remaining subscribers instead of returning all to waiting

---
 include/kelcoro/events.hpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/include/kelcoro/events.hpp b/include/kelcoro/events.hpp
index 831fd08..8ace459 100644
--- a/include/kelcoro/events.hpp
+++ b/include/kelcoro/events.hpp
@@ -83,9 +83,16 @@ struct event {
     task_node* top = subscribers.try_pop_all();
     if (!top)
       return false;
-    // TODO not ignore exception from attach/copy construct
+    // all copies before first attach, so nobody is resumed if copying throws
+    try {
+      for (task_node* n = top; n; n = n->next)
+        static_cast<subscribe*>(n)->input = input;
+    } catch (...) {
+      subscribers.push_stack(top);
+      throw;
+    }
+    // TODO not ignore exception from attach
     while (top) {
-      static_cast<subscribe*>(top)->input = input;
       task_node* next = top->next;
       exe.attach(top);
       top = next;
-- 
2.43.0


From 81489e5d0d8a3a087d828c2b9d9940b05cebf2fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:52 +0000
Subject: [PATCH 20/21] fix: an exception nobody took from a channel stayed in
 the object after clear()/reset() and was thrown by (or terminated) the next
 coroutine

---
 include/kelcoro/channel.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/kelcoro/channel.hpp b/include/kelcoro/channel.hpp
index 9b4bcaa..e71331e 100644
--- a/include/kelcoro/channel.hpp
+++ b/include/kelcoro/channel.hpp
@@ -270,6 +270,8 @@ struct channel : enable_resource_deduction {
       top = nullptr;
       current_result = nullptr;
     }
+    // it belongs to the coroutine which is gone
+    exception = nullptr;
   }
   ~channel() {
     clear();
-- 
2.43.0


From f6adcdf33a1c82d536f9b9c6f35a3f1d83668d8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:27 +0000
Subject: [PATCH 21/21] fix: a trivially destructible memory resource was used
 inside the memory it had just released

---
 include/kelcoro/memory_support.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/kelcoro/memory_support.hpp b/include/kelcoro/memory_support.hpp
index 9748b7b..30a8262 100644
--- a/include/kelcoro/memory_support.hpp
+++ b/include/kelcoro/memory_support.hpp
@@ -246,7 +246,8 @@ struct overload_new_delete {
       R* onframe_resource = (R*)((std::byte*)ptr + frame_sz);
       assert((((uintptr_t)onframe_resource % alignof(R)) == 0));
       if constexpr (std::is_trivially_destructible_v<R>) {
-        onframe_resource->deallocate(ptr, frame_sz + sizeof(R));
+        // a copy, because resource may use its own fields after the memory is released
+        R(std::move(*onframe_resource)).deallocate(ptr, frame_sz + sizeof(R));
       } else {
         // save to stack from deallocated memory
         R r = std::move(*onframe_resource);
-- 
2.43.0

