// REPLAY-VARIANTS: asan
#include "plain.hpp"
#include <ranges>
#include <map>
#include <kelcoro/task.hpp>
#include <kelcoro/job.hpp>
#include <kelcoro/generator.hpp>
#include <kelcoro/channel.hpp>
#include <kelcoro/async_task.hpp>
#include <kelcoro/logical_thread.hpp>
using namespace dd;
// every resource has an identity; the ledger knows who handed out what
struct ledger {
  std::map<void*, std::pair<long, size_t>> live;
  int asked = 0;
  bool empty = false;
  void* get(long id, size_t n) {
    ++asked;
    if (empty)
      throw 7;
    void* p = ::operator new(n);
    std::memset(p, 0xcd, n);
    live[p] = {id, n};
    return p;
  }
  void put(long id, void* p, size_t n) {
    auto it = live.find(p);
    CHECK(it != live.end());
    CHECK(it->second.first == id);
    CHECK(it->second.second == n);
    live.erase(it);
    ::operator delete(p);
  }
};
static ledger L;
static long next_id;
static int copies;
#define BODY                                             \
  void* allocate(size_t n) { return L.get((long)id, n); } \
  void deallocate(void* p, size_t n) noexcept {           \
    L.put((long)id, p, n);                                \
    CHECK((long)id == want());                            \
  }                                                       \
  static long& want() {                                   \
    static long x;                                        \
    return x;                                             \
  }
struct r_triv {
  long id;
  BODY
};
struct r_byte {
  unsigned char id;
  BODY
};
struct r_odd {
  int id;
  int pad[2];
  BODY
};
struct alignas(16) r_al {
  long id;
  BODY
};
template <size_t A>
struct alignas(A) r_own {
  long id;
  explicit r_own(long i) noexcept : id(i) { made(); }
  r_own() noexcept : id(next_id) { made(); }
  r_own(r_own&& o) noexcept : id(std::exchange(o.id, -1)) { made(); }
  r_own(const r_own& o) noexcept : id(o.id) { made(); }
  ~r_own() {
    CHECK(at().erase(this) == 1);
    id = -7;
  }
  void made() {
    CHECK((uintptr_t)this % A == 0);
    CHECK(at().emplace(this, 1).second);
  }
  static std::map<void*, int>& at() {
    static std::map<void*, int> m;
    return m;
  }
  void* allocate(size_t n) { return L.get(id, n); }
  void deallocate(void* p, size_t n) noexcept {
    for (auto& [q, _] : at())
      CHECK((char*)q < (char*)p || (char*)q >= (char*)p + n);
    long i = id;
    L.put(id, p, n);
    CHECK(i == id);
  }
};
struct big {
  long id;
  BODY
};
struct r_empty {
  static void* allocate(size_t n) { return L.get(0, n); }
  static void deallocate(void* p, size_t n) noexcept { L.put(0, p, n); }
};
template <typename R>
static void eachsize(auto mk) {
  for (size_t n = 1; n < 130; ++n) {
    next_id = 3 + kvc::rnd() % 100;
    L = {};
    {
      auto r = mk(next_id);
      with_resource<R>& w = *r;
      void* p = overload_new_delete<R>::operator new(n, 5, w);
      CHECK(L.asked == 1 && L.live.size() == 1);
      CHECK((uintptr_t)p % 16 == 0);
      std::memset(p, 0x11, n);
      r.reset();
      overload_new_delete<R>::operator delete(p, n);
      CHECK(L.live.empty());
      r = mk(next_id);
      L.empty = true;
      bool thrown = false;
      try {
        (void)overload_new_delete<R>::operator new(n, *r);
      } catch (int x) {
        thrown = x == 7;
      }
      CHECK(thrown);
      L.empty = false;
    }
    if constexpr (requires { R::at(); })
      CHECK(R::at().empty());
  }
}
template <typename R>
static std::unique_ptr<with_resource<R>> plain(long id) {
  std::unique_ptr<with_resource<R>> o;
  if constexpr (requires { R::want(); })
    R::want() = id;
  if constexpr (std::is_constructible_v<R, long> && !std::is_aggregate_v<R>)
    o.reset(new std::remove_reference_t<decltype(*o)>(id));
  else if constexpr (std::is_empty_v<R>)
    o.reset(new with_resource<R>());
  else {
    R r{};
    r.id = id;
    o.reset(new std::remove_reference_t<decltype(*o)>(r));
  }
  return o;
}
SCENARIO(sizes, 20) {
  eachsize<r_triv>(plain<r_triv>);
  eachsize<r_empty>(plain<r_empty>);
  eachsize<r_byte>(plain<r_byte>);
  eachsize<r_odd>(plain<r_odd>);
  eachsize<r_al>(plain<r_al>);
  eachsize<r_own<8>>(plain<r_own<8>>);
  eachsize<r_own<16>>(plain<r_own<16>>);
  static big b;
  eachsize<chunk_from<big>>([](long id) {
    b.id = big::want() = id;
    std::unique_ptr<with_resource<chunk_from<big>>> o;
    o.reset(new std::remove_reference_t<decltype(*o)>(b));
    return o;
  });
}
struct gatep {
  std::coroutine_handle<>* h;
  bool await_ready() { return false; }
  void await_suspend(std::coroutine_handle<> c) { *h = c; }
  void await_resume() {}
};
template <size_t N>
struct local {
  char c[N];
  local() { std::memset(c, 0x22, N); }
  ~local() { std::memset(c, 0x33, N); }
};
struct thrower {
  thrower() {}
  thrower(const thrower&) {
    if (++copies == 2)
      throw 8;
  }
};
template <typename R, size_t N>
struct bodies {
  using A = with_resource<R>;
  static task<int> t(int a, A) {
    local<N> l;
    co_return a + l.c[0];
  }
  static task<int> bad(thrower, A) { co_return 1; }
  static generator<int> g(int a, A&) {
    local<N> l;
    co_yield a;
    co_yield l.c[0];
  }
  static channel<int> c(int a, const A&) {
    local<N> l;
    co_yield a;
  }
  static job j(std::coroutine_handle<>* h, A&&) {
    local<N> l;
    if (h)
      co_await gatep{h};
  }
  static async_task<int> a(std::coroutine_handle<>* h, A) {
    local<N> l;
    if (h)
      co_await gatep{h};
    co_return 5;
  }
  static logical_thread th(std::coroutine_handle<>* h, A) {
    local<N> l;
    if ((co_await this_coro::stop_token).stop_requested())
      co_return;
    if (h)
      co_await gatep{h};
  }
};
static job drive(task<int>& t) { (void)co_await t; }
static job drivec(channel<int>& t) { co_foreach(int x, t) CHECK(x == 4); }
template <typename R, size_t N>
static void coros(auto mk) {
  using B = bodies<R, N>;
  next_id = 3 + kvc::rnd() % 100;
  L = {};
  auto with = [&](auto f) {
    L.asked = 0;
    auto w = mk(next_id);
    f(*w, [&] { w.reset(); });
    w.reset();
    CHECK(L.asked == 1);
    CHECK(L.live.empty());
    if constexpr (requires { R::at(); })
      CHECK(R::at().empty());
  };
  for (int run = 0; run < 2; ++run) {
    with([&](auto& w, auto drop) {
      auto t = B::t(1, w);
      drop();
      if (run)
        drive(t);
    });
    with([&](auto& w, auto drop) {
      auto t = B::g(1, w);
      drop();
      if (run)
        for (int x : t)
          (void)x;
    });
    with([&](auto& w, auto drop) {
      auto t = B::c(4, w);
      drop();
      if (run)
        drivec(t);
    });
    for (int det = 0; det < 2; ++det) {
      with([&](auto& w, auto drop) {
        std::coroutine_handle<> h;
        B::j(run ? &h : nullptr, std::move(w));
        drop();
        if (run)
          h.resume();
      });
      with([&](auto& w, auto drop) {
        std::coroutine_handle<> h;
        auto t = B::a(run ? &h : nullptr, w);
        drop();
        if (det)
          t.detach();
        if (run)
          h.resume();
      });
      with([&](auto& w, auto drop) {
        std::coroutine_handle<> h;
        auto t = B::th(run ? &h : nullptr, w);
        drop();
        if (det)
          t.detach();
        if (run)
          h.resume();
      });
    }
  }
  with([&](auto& w, auto drop) {
    copies = 0;
    try {
      thrower x;
      auto t = B::bad(x, w);
      CHECK(false);
    } catch (int x) {
      CHECK(x == 8);
    }
  });
}
template <typename R>
static void lens() {
  coros<R, 1>(plain<R>);
  coros<R, 2>(plain<R>);
  coros<R, 5>(plain<R>);
  coros<R, 8>(plain<R>);
  coros<R, 11>(plain<R>);
  coros<R, 40>(plain<R>);
}
SCENARIO(coroutines, 20) {
  lens<r_triv>();
  lens<r_empty>();
  lens<r_byte>();
  lens<r_odd>();
  lens<r_al>();
  lens<r_own<8>>();
  lens<r_own<16>>();
}
template <typename T>
using rd = resourced<T, r_own<8>>;
static rd<task<int>> dt(int a) { co_return a; }
static rd<generator<int>> dg(int a) { co_yield a; }
static rd<channel<int>> dc(int a) { co_yield a; }
static rd<async_task<int>> da(std::coroutine_handle<>* h) {
  if (h)
    co_await gatep{h};
  co_return 5;
}
static rd<logical_thread> dl(std::coroutine_handle<>* h) {
  if (h)
    co_await gatep{h};
}
SCENARIO(defaults, 20) {
  auto fin = [] {
    CHECK(L.asked == 1);
    CHECK(L.live.empty());
    CHECK(r_own<8>::at().empty());
    L = {};
    ++next_id;
  };
  L = {};
  next_id = 5;
  for (int run = 0; run < 2; ++run) {
    {
      auto t = dt(1);
      next_id += 2;
      if (run)
        drive(t.decay());
    }
    fin();
    {
      auto t = dg(1);
      next_id += 2;
      if (run)
        for (int x : t)
          (void)x;
    }
    fin();
    {
      auto t = dc(4);
      next_id += 2;
      if (run)
        drivec(t.decay());
    }
    fin();
    {
      std::coroutine_handle<> h;
      auto t = da(run ? &h : nullptr);
      next_id += 2;
      if (run)
        h.resume();
    }
    fin();
    {
      std::coroutine_handle<> h;
      auto t = dl(run ? &h : nullptr);
      next_id += 2;
      if (run) {
        t.detach();
        h.resume();
      }
    }
    fin();
  }
}
