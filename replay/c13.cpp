// REPLAY-VARIANTS: asan, tsan
#include "sched.hpp"
#include <kelcoro/async_task.hpp>
#include <kelcoro/job.hpp>
using namespace dd;
struct val {
  std::unique_ptr<int> p;
  explicit val(int x) : p(new int(x)) {}
};
struct gate {
  std::atomic<void*>& h;
  bool await_ready() const noexcept { return false; }
  void await_suspend(std::coroutine_handle<> c) noexcept { h.store(c.address()); }
  void await_resume() noexcept {}
};
static async_task<val> body(std::atomic<void*>* h, bool thr) {
  if (h)
    co_await gate{*h};
  if (thr)
    throw std::runtime_error("x");
  co_return val(42);
}
static async_task<void> bodyv(std::atomic<void*>* h) {
  if (h)
    co_await gate{*h};
}
static int g_obj = 7;
static async_task<int&> bodyr(std::atomic<void*>* h) {
  if (h)
    co_await gate{*h};
  co_return g_obj;
}
static void go(std::atomic<void*>& h) { std::coroutine_handle<>::from_address(h.load()).resume(); }
static void take(async_task<val>& t, bool thr) {
  try {
    val v = t.get();
    CHECK(!thr && v.p && *v.p == 42);
  } catch (std::runtime_error&) {
    CHECK(thr);
  }
}
SCENARIO(get_race, 2000) {
  bool thr = kvc::rnd() % 2;
  std::atomic<void*> h{nullptr};
  async_task<val> t = body(&h, thr);
  std::thread a([&] { go(h); });
  int k = kvc::rnd() % 4;
  if (k == 0)
    take(t, thr);
  else if (k == 1) {
    t.wait();
    CHECK(t.ready());
    take(t, thr);
  } else if (k == 2) {
    if (t.ready())
      take(t, thr);
  } else {
    async_task<val> u = std::move(t);
    CHECK(t.empty());
    take(u, thr);
  }
  a.join();
}
SCENARIO(detach_race, 2000) {
  std::atomic<void*> h{nullptr};
  async_task<val> t = body(&h, kvc::rnd() % 2);
  std::thread a([&] { go(h); });
  int k = kvc::rnd() % 4;
  if (k == 0)
    t.detach();
  else if (k == 1) {
    async_task<val> u;
    u = std::move(t);
  } else if (k == 2) {
    if (t.ready())
      (void)t.ready();
    t.detach();
    CHECK(t.empty());
    t.detach();
  }  // 3: destructor
  {
    async_task<val> d = std::move(t);
  }
  a.join();
}
SCENARIO(void_race, 1000) {
  std::atomic<void*> h{nullptr}, h2{nullptr};
  async_task<void> t = bodyv(&h);
  async_task<int&> r = bodyr(&h2);
  std::thread a([&] { go(h), go(h2); });
  if (kvc::rnd() % 2)
    t.get();
  if (kvc::rnd() % 2)
    CHECK(&r.get() == &g_obj);
  t.detach();
  a.join();
}
SCENARIO(sequential, 1) {
  for (int thr = 0; thr < 2; ++thr)
    for (int order = 0; order < 6; ++order) {
      std::atomic<void*> h{nullptr};
      bool sync = order & 1;
      async_task<val> t = body(sync ? nullptr : &h, thr);
      CHECK(!t.empty() && t.ready() == sync);
      async_task<val> e;
      CHECK(!e.ready() && e.empty());
      e.wait();
      if (order >= 4) {
        async_task<val> t2 = body(nullptr, thr);
        t2 = std::move(t);
        if (!sync)
          go(h);
        CHECK(t2.ready());
        take(t2, thr);
        continue;
      }
      if (order < 2) {
        e = std::move(t);
        CHECK(t.empty() && !e.empty());
        if (!sync)
          go(h);
        CHECK(e.ready());
        take(e, thr);
        CHECK(e.ready());
      } else {
        swap(t, e);
        CHECK(t.empty());
        e.detach();
        CHECK(e.empty());
        if (!sync)
          go(h);
      }
    }
}
