// REPLAY-VARIANTS: asan
#include "sched.hpp"
#include <kelcoro/task.hpp>
using namespace dd;
static std::vector<std::string>* g_log;
struct Ctx {
  std::vector<std::string>* log = g_log;
  template <typename O, typename T>
  void on_owner_setted(std::coroutine_handle<O>, std::coroutine_handle<T>) noexcept { log->push_back("owner"); }
  template <typename T>
  void on_start(std::coroutine_handle<T>) noexcept { log->push_back("start"); }
  template <typename T>
  void on_end(std::coroutine_handle<T>) noexcept { log->push_back("end"); }
};
struct own {
  std::unique_ptr<int> p;
  explicit own(int v) : p(new int(v)) {}
};
struct gate {
  void** h;
  bool await_ready() const noexcept { return false; }
  void await_suspend(std::coroutine_handle<> c) noexcept { *h = c.address(); }
  void await_resume() noexcept {}
};
struct live {
  static inline int n = 0;
  live() { ++n; }
  ~live() { --n; }
};
static int g_obj;
template <typename T>
static task<T, Ctx> body(void** h, bool thr) {
  live l;
  g_log->push_back("body");
  if (h)
    co_await gate{h};
  if (thr)
    throw 5;
  if constexpr (std::is_void_v<T>)
    co_return;
  else if constexpr (std::is_reference_v<T>)
    co_return g_obj;
  else
    co_return T(42);
}
struct co {
  struct promise_type {
    co get_return_object() { return {std::coroutine_handle<promise_type>::from_promise(*this)}; }
    std::suspend_always initial_suspend() noexcept { return {}; }
    std::suspend_always final_suspend() noexcept { return {}; }
    void return_void() noexcept {}
    void unhandled_exception() noexcept { std::terminate(); }
  };
  std::coroutine_handle<promise_type> h;
};
template <typename T>
static void see(T&& x) {
  if constexpr (requires { *x.p; })
    CHECK(*own(std::move(x)).p == 42);
  else if constexpr (std::is_lvalue_reference_v<T>)
    CHECK(&x == &g_obj);
  else
    CHECK(x == 42);
  g_log->push_back("got");
}
template <typename T>
static co owner(task<T, Ctx>& t) {
  try {
    if constexpr (std::is_void_v<T>) {
      co_await t;
      g_log->push_back("got");
    } else
      see<T>(co_await t);
  } catch (int x) {
    CHECK(x == 5);
    g_log->push_back("caught");
  }
}
template <typename T>
static co waiter(task<T, Ctx>& t) {
  co_await t.wait();
  g_log->push_back("waited");
}
template <typename T>
static co proxied(task<T, Ctx>& t, std::coroutine_handle<co::promise_type> p) {
  co_await t.wait_with_proxy_owner(p);
  g_log->push_back("waited");
}
using S = std::vector<std::string>;
template <typename T>
static void get(task<T, Ctx>& t, bool thr) {
  try {
    if constexpr (std::is_void_v<T>) {
      t.get();
      g_log->push_back("got");
    } else
      see<T>(t.get());
    CHECK(!thr);
  } catch (int x) {
    CHECK(thr && x == 5);
    g_log->push_back("caught");
  }
}
#define EXPECT(...) do { S w{__VA_ARGS__}; CHECK(log == w); log.clear(); } while (0)
template <typename T>
static void all() {
  for (int g = 0; g < 2; ++g)
    for (int thr = 0; thr < 2; ++thr) {
      S log;
      g_log = &log;
      void* h = nullptr;
      const char* got = thr ? "caught" : "got";
      auto mk = [&] { return body<T>(g ? &h : nullptr, thr); };
      auto go = [&] { if (g) std::coroutine_handle<>::from_address(h).resume(); };
      {  // awaited, across moves
        task<T, Ctx> t0 = mk();
        EXPECT();
        task<T, Ctx> t(std::move(t0));
        CHECK(t0.empty() && !t.empty() && t && !t0);
        co o = owner<T>(t);
        o.h.resume();
        if (g)
          EXPECT("owner", "start", "body");
        go();
        if (g)
          EXPECT("end", got);
        else
          EXPECT("owner", "start", "body", "end", got);
        CHECK(o.h.done());
        task<T, Ctx> t2;
        t2 = std::move(t);
        CHECK(t.empty() && !t2.empty());
        if (!std::is_same_v<T, own>) {
          co o2 = owner<T>(t2);
          o2.h.resume();
          EXPECT(got);
          o2.h.destroy();
          co o3 = waiter<T>(t2);
          o3.h.resume();
          EXPECT("waited");
          o3.h.destroy();
        }
        o.h.destroy();
      }
      CHECK(live::n == 0);
      {  // wait, then get
        task<T, Ctx> t = mk();
        co o = waiter<T>(t);
        o.h.resume();
        go();
        EXPECT("owner", "start", "body", "end", "waited");
        get(t, thr);
        EXPECT(got);
        o.h.destroy();
      }
      {  // proxy
        task<T, Ctx> t = mk();
        co p = waiter<T>(t);
        co o = proxied<T>(t, p.h);
        o.h.resume();
        go();
        EXPECT("owner", "start", "body", "end", "waited");
        CHECK(o.h.done() && !p.h.done());
        o.h.destroy();
        p.h.destroy();
      }
      {  // detached
        task<T, Ctx> t = mk();
        t.start_and_detach();
        CHECK(t.empty());
        go();
        EXPECT("start", "body", "end");
        CHECK(live::n == 0);
        task<T, Ctx> u = mk();
        auto hh = u.start_and_detach(true);
        CHECK(u.empty() && hh);
        go();
        EXPECT("start", "body", "end");
        CHECK(hh.done());
        hh.destroy();
        task<T, Ctx> v = mk();
        auto h3 = v.detach();
        CHECK(v.empty());
        EXPECT();
        h3.resume();
        go();
        EXPECT("body", "end");
        task<T, Ctx> w = mk();
        auto h4 = w.release();
        CHECK(w.empty());
        task<T, Ctx> w2(h4);
        CHECK(w2.raw_handle() == h4 && w2.get_context()->log == &log);
        w2 = std::move(w2);
        CHECK(!w2.empty());
        task<T, Ctx> never = mk();
        w2 = std::move(never);
      }
      CHECK(live::n == 0);
      EXPECT();
      {  // blocking get
        task<T, Ctx> t = mk();
        std::thread x;
        if (!g) {
          get(t, thr);
          CHECK(t.empty());
          EXPECT("owner", "start", "body", "end", got);
        }
      }
      CHECK(live::n == 0);
      if (g) {  // destroyed in the middle
        task<T, Ctx> t = mk();
        co o = owner<T>(t);
        o.h.resume();
        log.clear();
        { task<T, Ctx> x = std::move(t); }
        CHECK(live::n == 0);
        o.h.destroy();
        EXPECT();
      }
      {
        task<T, Ctx> e;
        CHECK(e.empty() && !e.start_and_detach() && !e.detach() && !e.release() && !e.get_context());
      }
    }
}
SCENARIO(ints, 1) { all<int>(); }
SCENARIO(owns, 1) { all<own>(); }
SCENARIO(refs, 1) { all<int&>(); }
SCENARIO(voids, 1) { all<void>(); }
static task<int, Ctx> outer(task<int, Ctx>& t) { co_return co_await t; }
SCENARIO(nested, 1) {
  for (int thr = 0; thr < 2; ++thr) {
    S log;
    g_log = &log;
    task<int, Ctx> t = body<int>(nullptr, thr);
    task<int, Ctx> u = outer(t);
    get(u, thr);
    EXPECT("owner", "start", "owner", "start", "body", "end", "end", thr ? "caught" : "got");
  }
}
struct ngate {
  std::atomic<void*>& h;
  bool await_ready() const noexcept { return false; }
  void await_suspend(std::coroutine_handle<> c) noexcept { h.store(c.address()); }
  void await_resume() noexcept {}
};
static task<own> cross(std::atomic<void*>& h, bool thr) {
  co_await ngate{h};
  if (thr)
    throw 5;
  co_return own(42);
}
SCENARIO(get_from_other_thread, 300) {
  std::atomic<void*> h{nullptr};
  bool thr = kvc::rnd() % 2;
  task<own> t = cross(h, thr);
  std::thread a([&] {
    while (!h.load())
      std::this_thread::yield();
    std::coroutine_handle<>::from_address(h.load()).resume();
  });
  try {
    CHECK(*t.get().p == 42 && !thr);
  } catch (int x) {
    CHECK(thr && x == 5);
  }
  a.join();
}
