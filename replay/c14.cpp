// REPLAY-VARIANTS: asan, tsan
#include "sched.hpp"
#include <ranges>
#include <span>
#include <kelcoro/logical_thread.hpp>
using namespace dd;
struct gate {
  std::atomic<void*>& h;
  bool await_ready() const noexcept { return false; }
  void await_suspend(std::coroutine_handle<> c) noexcept { h.store(c.address()); }
  void await_resume() noexcept {}
};
struct guard {
  std::atomic<int>& n;
  ~guard() { n.fetch_add(1); }
};
struct rec {
  std::atomic<void*> h{nullptr};
  std::atomic<int> left{0}, saw{0};
};
static logical_thread body(rec& r, bool sync) {
  guard g{r.left};
  stop_token t = co_await this_coro::stop_token;
  if (!sync)
    co_await gate{r.h};
  if (t.stop_requested())
    r.saw.store(1);
}
static void go(rec& r) { std::coroutine_handle<>::from_address(r.h.load()).resume(); }
SCENARIO(join_race, 2000) {
  rec r;
  logical_thread t = body(r, false);
  bool before = kvc::rnd() % 2;
  if (before)
    CHECK(t.request_stop());
  std::thread a([&] { go(r); });
  switch (kvc::rnd() % 5) {
    case 0:
      t.join();
      CHECK(!t.joinable());
      CHECK(r.left.load() == 1);
      break;
    case 1:
      t.detach();
      CHECK(!t.joinable());
      break;
    case 2: {
      logical_thread u = std::move(t);
      CHECK(!t.joinable());
      break;
    }
    case 3: {
      rec q;
      {
        logical_thread u = body(q, true);
        t = std::move(u);
      }
      CHECK(r.left.load() == 1);
      break;
    }
    case 4:
      dd::stop(t);
      CHECK(r.left.load() == 1);
  }
  a.join();
  CHECK(r.left.load() == 1);
  CHECK(!before || r.saw.load() == 1);
}
// the coroutine finishes only after it was asked to
static logical_thread loop(rec& r, std::atomic<int>& turn) {
  guard g{r.left};
  stop_token t = co_await this_coro::stop_token;
  co_await gate{r.h};
  while (!t.stop_requested())
    turn.fetch_add(1);
}
SCENARIO(stop_then_join, 500) {
  rec r, q;
  std::atomic<int> turn{0};
  {
    std::vector<logical_thread> v;
    v.push_back(loop(r, turn));
    v.push_back(loop(q, turn));
    std::thread a([&] { go(r); }), b([&] { go(q); });
    switch (kvc::rnd() % 4) {
      case 0: dd::stop(v); break;
      case 1: dd::stop(v[0], v[1]); break;
      case 2: v[0] = std::move(v[1]); break;
    }
    v.clear();
    CHECK(r.left.load() == 1 && q.left.load() == 1);
    a.join(), b.join();
  }
}
struct fake {
  static inline int rq = 0, jd = 0;
  void request_stop() {
    CHECK(jd == 0);
    ++rq;
  }
  void join() { ++jd; }
};
SCENARIO(stop_order, 1) {
  for (int n = 0; n < 5; ++n) {
    std::vector<fake> v(n);
    fake::rq = fake::jd = 0;
    dd::stop(v);
    CHECK(fake::rq == n && fake::jd == n);
  }
  fake a, b, c;
  fake::rq = fake::jd = 0;
  dd::stop(a, b, c);
  CHECK(fake::rq == 3 && fake::jd == 3);
  rec r;
  {
    logical_thread t = body(r, true);
    CHECK(t.joinable() && t.stop_possible());
    t.join();
    CHECK(!t.joinable() && !t.request_stop());
  }
  {
    logical_thread t = body(r, true);
    t.detach();
  }
  {
    logical_thread t = body(r, true);
  }
  CHECK(r.left.load() == 3);
}
