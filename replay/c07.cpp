// REPLAY-VARIANTS: asan, tsan
#include "sched.hpp"
#include <kelcoro/thread_pool.hpp>
using namespace dd;
struct sum {
  std::atomic<int> sent{0}, ran{0}, cancelled{0};
};
static job one(auto& e, sum& s, int hops) {
  for (;;) {
    s.sent.fetch_add(1);
    auto st = co_await jump_on(e);
    (st ? s.ran : s.cancelled).fetch_add(1);
    if (!st || hops-- == 0)
      co_return;
  }
}
static job on_strand(strand e, sum& s, int hops) {
  for (;;) {
    s.sent.fetch_add(1);
    auto st = co_await jump_on(e);
    (st ? s.ran : s.cancelled).fetch_add(1);
    if (!st || hops-- == 0)
      co_return;
  }
}
#define ALL_RESUMED(s) CHECK(s.sent.load() == s.ran.load() + s.cancelled.load())
SCENARIO(worker_destroyed, 3000) {
  sum s;
  {
    worker w;
    std::vector<std::thread> ts;
    for (int i = 0; i < 2; ++i)
      ts.emplace_back([&] {
        one(w, s, 1);
        one(w, s, 0);
      });
    one(w, s, 2);
    for (auto& t : ts)
      t.join();
  }
  ALL_RESUMED(s);
}
SCENARIO(pool_destroyed, 3000) {
  sum s;
  {
    thread_pool p(1 + kvc::rnd() % 3);
    std::vector<std::thread> ts;
    for (int i = 0; i < 2; ++i)
      ts.emplace_back([&] {
        one(p, s, 2);
        p.schedule([&] { s.ran.fetch_add(1), s.sent.fetch_add(1); });
        on_strand(p.get_strand(kvc::rnd()), s, 1);
      });
    if (kvc::rnd() % 3 == 0)
      p.request_stop();
    for (auto& t : ts)
      t.join();
    if (kvc::rnd() % 3 == 0)
      p.request_stop();
  }
  ALL_RESUMED(s);
}
SCENARIO(pool_stopped, 3000) {
  sum s;
  {
    thread_pool p(1 + kvc::rnd() % 3);
    std::vector<std::thread> ts;
    ts.emplace_back([&] {
      for (int i = 0; i < 3; ++i)
        one(p, s, 1);
    });
    ts.emplace_back([&] {
      one(p, s, 1);
      p.request_stop();
      one(p, s, 1);
    });
    if (kvc::rnd() % 2)
      p.request_stop();
    for (auto& t : ts)
      t.join();
    std::move(p).wait_stop();
    ALL_RESUMED(s);
    for (auto& t : p.workers_range())
      CHECK(!t.joinable());
  }
  ALL_RESUMED(s);
}
// tasks of one queue push into the other while it stops
SCENARIO(across, 3000) {
  sum s;
  {
    thread_pool p(2 + kvc::rnd() % 2);
    auto cross = [](thread_pool& p, sum& s, unsigned h) -> job {
      for (unsigned i = 0; i < 4; ++i) {
        strand st = p.get_strand(h + i);
        s.sent.fetch_add(1);
        auto r = co_await jump_on(st);
        (r ? s.ran : s.cancelled).fetch_add(1);
        if (!r)
          co_return;
      }
    };
    for (unsigned i = 0; i < 3; ++i)
      cross(p, s, i);
    if (kvc::rnd() % 2) {
      p.request_stop();
      std::move(p).wait_stop();
      ALL_RESUMED(s);
    }
  }
  ALL_RESUMED(s);
}
#ifndef KVC_FREE
// the i-th thread does not start
SCENARIO(no_thread, 400) {
  int n = 1 + kvc::rnd() % 4, at = kvc::rnd() % n;
  std::thread::fail_after = at;
  bool thrown = false;
  try {
    thread_pool p(n);
  } catch (std::system_error&) {
    thrown = true;
  }
  std::thread::fail_after = -1;
  CHECK(thrown);
  for (auto& t : kvc::S().ths)
    CHECK(t.get() == kvc::self || t->finished);
  // and the memory comes from, and goes back to, the given resource
  struct res : std::pmr::memory_resource {
    size_t live = 0;
    void* do_allocate(size_t n, size_t) override {
      live += n;
      return malloc(n);
    }
    void do_deallocate(void* p, size_t n, size_t) override {
      CHECK(live >= n);
      live -= n;
      free(p);
    }
    bool do_is_equal(const memory_resource& o) const noexcept override { return this == &o; }
  } r;
  std::thread::fail_after = at;
  thrown = false;
  try {
    thread_pool p(n, default_worker_job, r);
  } catch (std::system_error&) {
    thrown = true;
  }
  std::thread::fail_after = -1;
  CHECK(thrown && r.live == 0);
}
SCENARIO(worker_no_thread, 20) {
  std::thread::fail_after = 0;
  bool thrown = false;
  try {
    worker w;
  } catch (std::system_error&) {
    thrown = true;
  }
  std::thread::fail_after = -1;
  CHECK(thrown);
}
#endif
