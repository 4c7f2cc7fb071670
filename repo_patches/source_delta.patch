From 7af3693fcdcc7f883a02b7291167d1a235426002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:10 +0000
Subject: [PATCH 01/15] fix: fixed_array keeps the memory resource it was given

The constructor parameter shadowed the member, so the array was allocated from
the given resource but deallocated into new_delete_resource().
---
 include/kelcoro/noexport/fixed_array.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/kelcoro/noexport/fixed_array.hpp b/include/kelcoro/noexport/fixed_array.hpp
index 5641054..ca3d726 100644
--- a/include/kelcoro/noexport/fixed_array.hpp
+++ b/include/kelcoro/noexport/fixed_array.hpp
@@ -27,7 +27,7 @@ struct fixed_array {
     std::swap(resource, rhs.resource);
     return *this;
   }
-  fixed_array(size_t n, std::pmr::memory_resource& resource = *std::pmr::new_delete_resource()) : n(n) {
+  fixed_array(size_t n, std::pmr::memory_resource& resource = *std::pmr::new_delete_resource()) : n(n), resource(&resource) {
     if (n == 0)
       return;
     arr = (T*)resource.allocate(sizeof(T) * n, alignof(T));
-- 
2.43.0


From 38b47683eac71b720c43afb572732651f08e1c96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:24 +0000
Subject: [PATCH 02/15] fix: latch: do not read the awaiter after its node is
 published

---
 include/kelcoro/latch.hpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/include/kelcoro/latch.hpp b/include/kelcoro/latch.hpp
index 8d5e25c..d48fcc5 100644
--- a/include/kelcoro/latch.hpp
+++ b/include/kelcoro/latch.hpp
@@ -22,11 +22,13 @@ struct latch {
       return l.ready();
     }
     void await_suspend(std::coroutine_handle<> handle) noexcept {
+      // after 'push' this awaiter may be destroyed by thread, which resumes 'handle'
+      latch& lt = l;
       node.task = handle;
-      l.stack.push(&node);
+      lt.stack.push(&node);
       // in case if 'ready' changed from 'false' to 'true' wakeup all who call 'wait'
-      if (l.ready())
-        l.wakeup_all();
+      if (lt.ready())
+        lt.wakeup_all();
     }
     static void await_resume() noexcept {
     }
@@ -47,9 +49,12 @@ struct latch {
       return false;
     }
     void await_suspend(std::coroutine_handle<> handle) noexcept {
+      // after 'push' this awaiter may be destroyed by thread, which resumes 'handle'
+      latch& lt = l;
+      const ptrdiff_t count = n;
       node.task = handle;
-      l.stack.push(&node);
-      l.count_down(n);
+      lt.stack.push(&node);
+      lt.count_down(count);
     }
     static void await_resume() noexcept {
     }
-- 
2.43.0


From 956fa355c73f6f6656ab5673e298ad38fe98bad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:53 +0000
Subject: [PATCH 03/15] fix: when_any(events): do not read the awaiter after
 the first subscription

---
 include/kelcoro/events.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/kelcoro/events.hpp b/include/kelcoro/events.hpp
index 5691981..569bf0b 100644
--- a/include/kelcoro/events.hpp
+++ b/include/kelcoro/events.hpp
@@ -184,6 +184,8 @@ KELCORO_CO_AWAIT_REQUIRED constexpr auto when_any(event<Inputs>&... events) {
     void await_suspend(std::coroutine_handle<void> handle) {
       // need to allocate, because after coro resuming awaiter will die(with flag in it)
       auto count_ptr = std::make_shared<std::atomic<uint8_t>>(0);
+      // same for events, 'this' may be destroyed after first 'set_callback'
+      const auto evs = events_;
       const auto create_cb_for = [&]<typename Input, size_t EventIndex>(
                                      std::type_identity<Input>, std::integral_constant<size_t, EventIndex>) {
         if constexpr (std::is_void_v<Input>) {
@@ -206,7 +208,7 @@ KELCORO_CO_AWAIT_REQUIRED constexpr auto when_any(event<Inputs>&... events) {
         }
       };
       [&]<size_t... Is>(std::index_sequence<Is...>) {
-        (std::get<Is>(events_).set_callback(
+        (std::get<Is>(evs).set_callback(
              create_cb_for(std::type_identity<Inputs>{}, std::integral_constant<size_t, Is>{})),
          ...);
       }  // INVOKED HERE
-- 
2.43.0


From 7a8c1907eb2b159daaa44639bae7f1919edd12f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:13 +0000
Subject: [PATCH 04/15] fix: stack_resource::reuse_memory makes the initial
 buffer available again

---
 include/kelcoro/stack_memory_resource.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/kelcoro/stack_memory_resource.hpp b/include/kelcoro/stack_memory_resource.hpp
index 37f23e3..3b4435b 100644
--- a/include/kelcoro/stack_memory_resource.hpp
+++ b/include/kelcoro/stack_memory_resource.hpp
@@ -179,6 +179,7 @@ struct stack_resource {
       m = b;
       drop_cur_chunk();
     }
+    m = b;
   }
 };
 
-- 
2.43.0


From f6f4dd1f6aebb5034a12cdb8da0080f6ae114fc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:13 +0000
Subject: [PATCH 05/15] fix: expected::error() returns the error, not a pointer
 to it

---
 include/kelcoro/noexport/expected.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/kelcoro/noexport/expected.hpp b/include/kelcoro/noexport/expected.hpp
index dd4410d..b972d9f 100644
--- a/include/kelcoro/noexport/expected.hpp
+++ b/include/kelcoro/noexport/expected.hpp
@@ -56,12 +56,12 @@ struct expected {
   // precondition: !has_value()
   E& error() noexcept {
     assert(!has_value());
-    return std::get_if<1>(&data);
+    return *std::get_if<1>(&data);
   }
   // precondition: !has_value()
   const E& error() const noexcept {
     assert(!has_value());
-    return std::get_if<1>(&data);
+    return *std::get_if<1>(&data);
   }
 };
 
-- 
2.43.0


From 0a6f4abc351bf5ffa99ef8b1abc9aa04bd19d11f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:13 +0000
Subject: [PATCH 06/15] fix: polymorphic_resource uses the default set by
 dd::pmr::set_default_resource

---
 include/kelcoro/memory_support.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/kelcoro/memory_support.hpp b/include/kelcoro/memory_support.hpp
index 7e2de52..9748b7b 100644
--- a/include/kelcoro/memory_support.hpp
+++ b/include/kelcoro/memory_support.hpp
@@ -126,7 +126,7 @@ struct polymorphic_resource {
  public:
   polymorphic_resource() noexcept : passed(std::exchange(passed_resource(), nullptr)) {
     if (!passed)
-      passed = std::pmr::get_default_resource();
+      passed = default_resource().load(std::memory_order_acquire);
     assert(passed != nullptr);
   }
   polymorphic_resource(std::pmr::memory_resource& m) noexcept : passed(&m) {
-- 
2.43.0


From 08b0293aa6b53000919e9112a25e62c2fc347b91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:42 +0000
Subject: [PATCH 07/15] fix: do not force-inline await_suspend that destroys
 its own coroutine (use after free with clang -O1)

---
 include/kelcoro/common.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/kelcoro/common.hpp b/include/kelcoro/common.hpp
index db6b327..b9418e2 100644
--- a/include/kelcoro/common.hpp
+++ b/include/kelcoro/common.hpp
@@ -259,7 +259,7 @@ struct [[nodiscard("co_await it!")]] destroy_and_transfer_control_to {
   static bool await_ready() noexcept {
     return false;
   }
-  KELCORO_ASSUME_NOONE_SEES std::coroutine_handle<> await_suspend(std::coroutine_handle<> self) noexcept {
+  std::coroutine_handle<> await_suspend(std::coroutine_handle<> self) noexcept {
     // move it to stack memory to save from destruction
     auto w = who_waits;
     self.destroy();
-- 
2.43.0


From 1c333a0bde0398343a52ca8b947ea0ac15e4ffd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:39 +0000
Subject: [PATCH 08/15] fix: cleared and released generators are empty ranges,
 a reset one tells its frame who iterates

---
 include/kelcoro/generator.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/kelcoro/generator.hpp b/include/kelcoro/generator.hpp
index 4ae3185..cf03faa 100644
--- a/include/kelcoro/generator.hpp
+++ b/include/kelcoro/generator.hpp
@@ -304,11 +304,14 @@ struct generator : enable_resource_deduction {
   constexpr void reset(handle_type handle) noexcept {
     clear();
     top = handle;
+    if (top)
+      prepare_to_start();
   }
 
   // postcondition: .empty()
   // its caller responsibility to correctly destroy handle
   [[nodiscard]] constexpr handle_type release() noexcept {
+    current_result = nullptr;
     return std::exchange(top, nullptr);
   }
   [[nodiscard]] constexpr handle_type raw_handle() const noexcept {
@@ -320,6 +323,7 @@ struct generator : enable_resource_deduction {
     if (top) {
       top.destroy();
       top = nullptr;
+      current_result = nullptr;
     }
   }
   constexpr ~generator() {
-- 
2.43.0


From 9149bef9d7a29001e862ee0ae79126af2ab79a25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:39 +0000
Subject: [PATCH 09/15] fix: comparing an iterator of an empty
 generator<nothing_t> with end() does not touch a null handle

---
 include/kelcoro/generator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/kelcoro/generator.hpp b/include/kelcoro/generator.hpp
index cf03faa..4585fec 100644
--- a/include/kelcoro/generator.hpp
+++ b/include/kelcoro/generator.hpp
@@ -177,7 +177,7 @@ struct generator_iterator {
     if constexpr (!std::is_same_v<nothing_t, Yield>) {
       return self->current_result == nullptr;
     } else {
-      return self->top.done();
+      return self->empty();
     }
   }
   constexpr reference operator*() const noexcept {
-- 
2.43.0


From e0f2f0b82e65d35516b157786165968db8b6018c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:39 +0000
Subject: [PATCH 10/15] fix: cleared and released channels are empty

---
 include/kelcoro/channel.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/kelcoro/channel.hpp b/include/kelcoro/channel.hpp
index 0dcb699..36561e8 100644
--- a/include/kelcoro/channel.hpp
+++ b/include/kelcoro/channel.hpp
@@ -250,6 +250,7 @@ struct channel : enable_resource_deduction {
   // postcondition: .empty()
   // after this method its caller responsibility to correctly destroy 'handle'
   [[nodiscard]] constexpr handle_type release() noexcept {
+    current_result = nullptr;
     return std::exchange(top, nullptr);
   }
   [[nodiscard]] constexpr handle_type raw_handle() const noexcept {
@@ -261,6 +262,7 @@ struct channel : enable_resource_deduction {
     if (top) {
       top.destroy();
       top = nullptr;
+      current_result = nullptr;
     }
   }
   ~channel() {
-- 
2.43.0


From af7f2cc64c2e3df869c5f7a5b8039c17f6043fe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:39 +0000
Subject: [PATCH 11/15] fix: channel_iterator::equivalent compares the
 channels, owner() compiles

---
 include/kelcoro/channel.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/kelcoro/channel.hpp b/include/kelcoro/channel.hpp
index 36561e8..c09dc48 100644
--- a/include/kelcoro/channel.hpp
+++ b/include/kelcoro/channel.hpp
@@ -155,10 +155,10 @@ struct channel_iterator {
 
   // return true if they are attached to same 'channel' object
   constexpr bool equivalent(const channel_iterator& other) const noexcept {
-    return std::addressof(chan) == std::addressof(other.chan);
+    return chan == other.chan;
   }
   channel<Yield>& owner() const noexcept {
-    return chan;
+    return *chan;
   }
 
   constexpr bool operator==(std::default_sentinel_t) const noexcept {
-- 
2.43.0


From 291f03ad7f189c80e2caa62055814a24d0c37641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:39 +0000
Subject: [PATCH 12/15] fix: incrementing an iterator of a swapped or reset
 channel delivers to that channel

---
 include/kelcoro/channel.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/kelcoro/channel.hpp b/include/kelcoro/channel.hpp
index c09dc48..020280d 100644
--- a/include/kelcoro/channel.hpp
+++ b/include/kelcoro/channel.hpp
@@ -238,6 +238,10 @@ struct channel : enable_resource_deduction {
     std::swap(handle, other.handle);
     std::swap(top, other.top);
     std::swap(exception, other.exception);
+    if (top)
+      top.promise()._consumer = this;
+    if (other.top)
+      other.top.promise()._consumer = std::addressof(other);
   }
   friend void swap(channel& a, channel& b) noexcept {
     a.swap(b);
@@ -246,6 +250,8 @@ struct channel : enable_resource_deduction {
   constexpr void reset(handle_type handle) noexcept {
     clear();
     top = handle;
+    if (top)
+      top.promise()._consumer = this;
   }
   // postcondition: .empty()
   // after this method its caller responsibility to correctly destroy 'handle'
-- 
2.43.0


From 62f0ecf5697b18443c6a0b9682274564772e414a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:16 +0000
Subject: [PATCH 13/15] fix: a trivially destructible memory resource is not
 used from the frame memory it deallocates

---
 include/kelcoro/memory_support.hpp | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/include/kelcoro/memory_support.hpp b/include/kelcoro/memory_support.hpp
index 9748b7b..540a733 100644
--- a/include/kelcoro/memory_support.hpp
+++ b/include/kelcoro/memory_support.hpp
@@ -245,14 +245,10 @@ struct overload_new_delete {
       frame_sz += noexport::padding_len<alignof(R)>(frame_sz);
       R* onframe_resource = (R*)((std::byte*)ptr + frame_sz);
       assert((((uintptr_t)onframe_resource % alignof(R)) == 0));
-      if constexpr (std::is_trivially_destructible_v<R>) {
-        onframe_resource->deallocate(ptr, frame_sz + sizeof(R));
-      } else {
-        // save to stack from deallocated memory
-        R r = std::move(*onframe_resource);
-        std::destroy_at(onframe_resource);
-        r.deallocate(ptr, frame_sz + sizeof(R));
-      }
+      // save to stack from deallocated memory
+      R r = std::move(*onframe_resource);
+      std::destroy_at(onframe_resource);
+      r.deallocate(ptr, frame_sz + sizeof(R));
     }
   }
 };
-- 
2.43.0


From f4bec95f17d85042b4c4a08c3217c7d469c08248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:08 +0000
Subject: [PATCH 14/15] fix: async_task and a logical_thread's stop token work
 with a memory resource

Their awaiters took the handle of the plain promise type, so a coroutine with
a resourced promise (async_task_r, logical_thread_r, pmr::async_task, resource
passed as the last argument) did not compile.
---
 include/kelcoro/async_task.hpp     | 6 ++++--
 include/kelcoro/logical_thread.hpp | 5 +++--
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/include/kelcoro/async_task.hpp b/include/kelcoro/async_task.hpp
index e5bccae..313aea8 100644
--- a/include/kelcoro/async_task.hpp
+++ b/include/kelcoro/async_task.hpp
@@ -33,8 +33,10 @@ struct async_task_promise : return_block<Result> {
     static bool await_ready() noexcept {
       return false;
     }
-    bool await_suspend(std::coroutine_handle<async_task_promise> handle) const noexcept {
-      auto& p = handle.promise();
+    // promise may be resourced
+    template <std::derived_from<async_task_promise> P>
+    bool await_suspend(std::coroutine_handle<P> handle) const noexcept {
+      async_task_promise& p = handle.promise();
       p.ready.exchange(true, std::memory_order::acq_rel);
       p.ready.notify_one();
       // continue and destroy if ref count == 0
diff --git a/include/kelcoro/logical_thread.hpp b/include/kelcoro/logical_thread.hpp
index 7749945..fbc9ef0 100644
--- a/include/kelcoro/logical_thread.hpp
+++ b/include/kelcoro/logical_thread.hpp
@@ -98,8 +98,9 @@ struct logical_thread_promise {
     static bool await_ready() noexcept {
       return false;
     }
-    KELCORO_ASSUME_NOONE_SEES bool await_suspend(
-        std::coroutine_handle<logical_thread_promise> handle) noexcept {
+    // promise may be resourced
+    template <std::derived_from<logical_thread_promise> P>
+    KELCORO_ASSUME_NOONE_SEES bool await_suspend(std::coroutine_handle<P> handle) noexcept {
       stop_state = &handle.promise().stop_requested_;
       return false;  // never suspend rly
     }
-- 
2.43.0


From 52f5906f9432ea7861a671ce9047dd9be72fe17b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:22 +0000
Subject: [PATCH 15/15] fix: ~thread_pool removes its stop marker from a queue
 before pushing it into the next one

A worker stopped by an earlier request_stop leaves the destructor's marker in its
queue; pushing the same node into the next queue then cut off the tasks behind it.
---
 include/kelcoro/thread_pool.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/kelcoro/thread_pool.hpp b/include/kelcoro/thread_pool.hpp
index 859facb..e0e5d03 100644
--- a/include/kelcoro/thread_pool.hpp
+++ b/include/kelcoro/thread_pool.hpp
@@ -283,6 +283,9 @@ struct thread_pool {
       if (threads[i].joinable()) {
         queues[i].push(&pill);
         threads[i].join();
+        // the worker may have been stopped by an earlier `request_stop`, then `pill` is still in its queue
+        // and must leave it before it is pushed into the next one
+        noexport::cancel_tasks(queues[i].pop_all());
       }
     }
     for (auto& q : queues)
-- 
2.43.0

