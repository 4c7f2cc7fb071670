// REPLAY-VARIANTS: asan
#include "plain.hpp"
#include <mutex>
#include <ranges>
#include <map>
#include <thread>
#include <kelcoro/task.hpp>
#include <kelcoro/job.hpp>
#include <kelcoro/generator.hpp>
#include <kelcoro/channel.hpp>
#include <kelcoro/async_task.hpp>
#include <kelcoro/logical_thread.hpp>
#include <kelcoro/thread_pool.hpp>
using namespace dd;
// every block remembers which resource gave it, its size and alignment
struct res : std::pmr::memory_resource {
  std::map<void*, std::pair<size_t, size_t>> live;
  std::mutex m;
  std::atomic<int> total = 0;
  bool empty = false;
  void* do_allocate(size_t n, size_t a) override {
    if (empty)
      throw 7;
    std::lock_guard l(m);
    ++total;
    void* p = ::operator new(n, std::align_val_t(a < 16 ? 16 : a));
    std::memset(p, 0xcd, n);
    live[p] = {n, a};
    return p;
  }
  void do_deallocate(void* p, size_t n, size_t a) override {
    std::lock_guard l(m);
    auto it = live.find(p);
    CHECK(it != live.end());  // given back to the resource it came from
    CHECK(it->second.first == n);
    CHECK(it->second.second == a);
    live.erase(it);
    ::operator delete(p, std::align_val_t(a < 16 ? 16 : a));
  }
  bool do_is_equal(const memory_resource& o) const noexcept override { return this == &o; }
};
struct elem {
  static inline int n = 0;
  elem() noexcept { ++n; }
  ~elem() { --n; }
  void* x[3];
};
struct alignas(64) elem64 : elem {};
template <typename T>
static void arrays() {
  using fa = noexport::fixed_array<T>;
  res r[3];
  {
    std::vector<std::unique_ptr<fa>> v(4);
    std::vector<std::pair<size_t, res*>> want(4);
    for (int step = 0; step < 30; ++step) {
      int i = kvc::rnd() % 4, j = kvc::rnd() % 4;
      switch (kvc::rnd() % 5) {
        case 0:
        case 1: {
          size_t n = kvc::rnd() % 6;
          res* q = &r[kvc::rnd() % 3];
          v[i].reset();
          v[i].reset(new fa(n, *q));
          want[i] = {n, q};
          break;
        }
        case 2:
          if (v[i] && v[j]) {
            *v[i] = std::move(*v[j]);
            if (i != j) {
              want[i] = want[j];
              v[j].reset();
            }
          }
          break;
        case 3:
          if (v[i] && i != j) {
            v[j].reset(new fa(std::move(*v[i])));
            want[j] = want[i];
            v[i].reset();
          }
          break;
        case 4: v[i].reset(); break;
      }
      for (int k = 0; k < 4; ++k)
        if (v[k]) {
          CHECK(v[k]->size() == want[k].first);
          CHECK(v[k]->get_resource() == want[k].second);
          CHECK((v[k]->data() == nullptr) == (want[k].first == 0));
          CHECK((uintptr_t)v[k]->data() % alignof(T) == 0);
        }
      int s = 0;
      for (int k = 0; k < 4; ++k)
        if (v[k])
          s += v[k]->size();
      CHECK(elem::n == s);
    }
    r[0].empty = true;
    try {
      fa a(3, r[0]);
      CHECK(false);
    } catch (int x) {
      CHECK(x == 7);
    }
  }
  for (auto& x : r)
    CHECK(x.live.empty());
  CHECK(elem::n == 0);
}
SCENARIO(fixed_arrays, 200) {
  arrays<elem>();
  arrays<elem64>();
}
SCENARIO(pools, 10) {
  res r, def;
  auto* old = std::pmr::set_default_resource(&def);
  for (size_t n : {0, 1, 3}) {
    std::atomic<int> runs = 0;
    {
      int had = r.live.size();
      thread_pool p(n, default_worker_job, r);
      CHECK(r.live.size() == had + 2);  // queues and threads
      CHECK(&p.get_resource() == &r);
      int before = r.total;
      for (int i = 0; i < 10; ++i)
        p.schedule([&] { ++runs; });
      CHECK(r.total == before + 10);
    }
    CHECK(runs <= 10);
    CHECK(r.live.empty());
  }
  std::pmr::set_default_resource(old);
  CHECK(def.live.empty() && def.total == 0);
  r.empty = true;
  try {
    thread_pool p(2, default_worker_job, r);
    CHECK(false);
  } catch (int) {
  }
  CHECK(r.live.empty());
}
using wp = with_resource<pmr::polymorphic_resource>;
template <typename... A>
[[gnu::noinline]] static pmr::task<int> tk(int a, A...) {
  co_return a;
}
template <typename... A>
[[gnu::noinline]] static pmr::generator<int> gn(int a, A...) {
  co_yield a;
}
template <typename... A>
[[gnu::noinline]] static pmr::async_task<int> as(int a, A...) {
  co_return a;
}
template <typename... A>
[[gnu::noinline]] static pmr::channel<int> ch(int a, A...) {
  co_yield a;
}
[[gnu::noinline]] static logical_thread plain_thr(int, with_pmr_resource) { co_return; }
[[gnu::noinline]] static task<int> plain_tk(int a, with_pmr_resource) { co_return a; }
SCENARIO(selection, 300) {
  res r[4], d[3];
  auto& first = pmr::get_default_resource();
  res* def = &d[0];
  CHECK(&pmr::set_default_resource(d[0]) == &first);
  res* sel = nullptr;
  {
    std::vector<std::shared_ptr<void>> keep;
    auto made = [&](res* want, auto mk) {
      int t = want->total, all = 0;
      for (auto& x : r)
        all += x.total;
      for (auto& x : d)
        all += x.total;
      mk();
      CHECK(want->total == t + 1);
      for (auto& x : r)
        all -= x.total;
      for (auto& x : d)
        all -= x.total;
      CHECK(all == -1);
    };
    for (int step = 0; step < 30; ++step) {
      auto* x = &r[kvc::rnd() % 4];
      switch (kvc::rnd() % 9) {
        case 0:
          pmr::pass_resource(*x);
          sel = x;
          break;
        case 1: {
          res* n = &d[kvc::rnd() % 3];
          CHECK(&pmr::set_default_resource(*n) == def);
          CHECK(&pmr::get_default_resource() == n);
          def = n;
          break;
        }
        case 2:
          std::thread([&] {
            made(def, [&] { tk(1); });
            pmr::pass_resource(*x);
          }).join();
          break;
        case 3:
        case 4:
          made(sel ? sel : def, [&] {
            switch (kvc::rnd() % 4) {
              case 0: keep.push_back(std::make_shared<pmr::task<int>>(tk(1))); break;
              case 1: keep.push_back(std::make_shared<pmr::generator<int>>(gn(1))); break;
              case 2: keep.push_back(std::make_shared<pmr::channel<int>>(ch(1))); break;
              case 3: keep.push_back(std::make_shared<pmr::async_task<int>>(as(1))); break;
            }
          });
          sel = nullptr;
          break;
        case 5: made(x, [&] { keep.push_back(std::make_shared<pmr::task<int>>(tk(1, wp(*x)))); }); break;
        case 6: made(x, [&] { keep.push_back(std::make_shared<logical_thread>(plain_thr(1, *x))); }); break;
        case 7: made(x, [&] { keep.push_back(std::make_shared<task<int>>(plain_tk(1, with_resource{*x}))); }); break;
        case 8:
          if (!keep.empty())
            keep.erase(keep.begin() + kvc::rnd() % keep.size());
          break;
      }
    }
  }
  if (sel)
    tk(1);
  pmr::set_default_resource(first);
  for (auto& x : r)
    CHECK(x.live.empty());
  for (auto& x : d)
    CHECK(x.live.empty());
}
// setting returns what it replaced, also when several threads set
SCENARIO(concurrent_set, 40) {
  enum { T = 4, N = 2000 };
  static res* rs = new res[T * N];
  static std::vector<std::atomic<int>> seen(T * N);
  for (auto& x : seen)
    x = 0;
  auto& first = pmr::get_default_resource();
  auto note = [](std::pmr::memory_resource& m, std::pmr::memory_resource& first) {
    if (&m != &first)
      ++seen[(res*)&m - rs];
  };
  std::atomic<int> go = 0, base = 0;
  std::vector<std::thread> t;
  for (int i = 0; i < T; ++i)
    t.emplace_back([&, i] {
      ++go;
      while (go < T)
        ;
      for (int k = 0; k < N; ++k) {
        auto& o = pmr::set_default_resource(rs[i * N + k]);
        if (&o == &first)
          ++base;
        note(o, first);
      }
    });
  for (auto& x : t)
    x.join();
  auto& last = pmr::set_default_resource(first);
  note(last, first);
  CHECK(base == 1);
  for (auto& x : seen)
    CHECK(x == 1);
}
