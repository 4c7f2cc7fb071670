// results: random bodies and consumers, objects counted
#include <kelcoro/task.hpp>
#include <kelcoro/async_task.hpp>
#include <kelcoro/noexport/expected.hpp>
#include "plain.hpp"
#include <set>
using namespace dd;
static std::vector<const void*> g_made;
static std::set<const void*> g_live;
static int g_boom = -1;
static void made(const void* p, bool live = true) {
  if (g_boom >= 0 && g_boom-- == 0)
    throw 7;
  if (live) {
    CHECK(!g_live.count(p));
    g_live.insert(p);
  }
  g_made.push_back(p);
}
static void died(const void* p) {
  CHECK(g_live.count(p) == 1);
  g_live.erase(p);
}
static void from(const void* p) { CHECK(g_live.count(p) == 1); }
struct obj {
  int v;
  explicit obj(int x) : v(x) { made(this); }
  obj(obj&& o) noexcept : v((from(&o), std::exchange(o.v, -1))) { made(this); }
  obj(const obj& o) : v((from(&o), o.v)) { made(this); }
  obj& operator=(const obj&) = delete;
  ~obj() { died(this); }
};
struct dobj : obj {
  dobj() : obj(5) {}
  using obj::obj;
};
struct tobj : obj {
  tobj(int x) : obj(x) {}
  tobj(tobj&& o) noexcept(false) : obj((obj&&)o) {}
};
struct err : obj {
  using obj::obj;
};
struct tri {
  int v;
  tri() : v(5) {}
  explicit tri(int x) : v(x) { made(this, false); }
  tri(tri&& o) noexcept : v(std::exchange(o.v, -1)) { made(this, false); }
  tri(const tri& o) : v(o.v) { made(this, false); }
};
struct ndt {
  int v;
  explicit ndt(int x) : v(x) { made(this, false); }
  ndt(ndt&& o) noexcept : v(std::exchange(o.v, -1)) { made(this, false); }
  ndt(const ndt& o) : v(o.v) { made(this, false); }
};
template <typename T>
int get_v(T& x) {
  if constexpr (requires { x.v; })
    return x.v;
  else
    return x;
}
template <typename T>
void set_v(T& x, int v) {
  if constexpr (requires { x.v; })
    x.v = v;
  else
    x = v;
}
struct rgate {
  std::coroutine_handle<>* h;
  bool await_ready() const noexcept { return !h; }
  void await_suspend(std::coroutine_handle<> c) noexcept { *h = c; }
  void await_resume() noexcept {}
};
// what a run of a body did
struct note {
  int value = 0, placed = 0;
  const void* place = nullptr;
  bool threw = false, inplace = false;
  const void* obj = nullptr;
};
template <typename C, typename T>
C body(note& l, std::coroutine_handle<>* h, int boomafter) {
  (void)boomafter;
  unsigned n = kvc::rnd() % 3;
  for (unsigned i = 0; i < n; ++i) {
    if constexpr (requires(typename C::promise_type p) { p.self_handle(); p.await_transform(this_coro::return_place); }) {
      if constexpr (std::is_default_constructible_v<T>) {
        if (kvc::rnd() & 1) {
          T& p = co_await this_coro::return_place;
          l.place = &p, ++l.placed;
          set_v(p, l.value = (int)kvc::rnd());
          continue;
        }
      }
      auto hh = co_await this_coro::handle;
      T& p = hh.promise().return_place(l.value = (int)kvc::rnd());
      l.place = &p, ++l.placed;
    } else if constexpr (std::is_default_constructible_v<T> &&
                         requires(typename C::promise_type p) { p.await_transform(this_coro::return_place); }) {
      T& p = co_await this_coro::return_place;
      l.place = &p, ++l.placed;
      set_v(p, l.value = (int)kvc::rnd());
    }
  }
  co_await rgate{h};
  switch (kvc::rnd() % 5) {
    case 0: co_return T(l.value = (int)kvc::rnd());
    case 1: {
      T x(l.value = (int)kvc::rnd());
      co_return x;
    }
    case 2: {
      const T x(l.value = (int)kvc::rnd());
      co_return x;
    }
    case 3: l.threw = true; throw 3;
    default:
      if (l.placed) {
        l.inplace = true;
        co_return rvo;
      }
      co_return T(l.value = (int)kvc::rnd());
  }
}
template <typename C, typename T>
C rbody(note& l, std::coroutine_handle<>* h, T* objs) {
  if constexpr (requires(typename C::promise_type p) { p.await_transform(this_coro::return_place); }) {
    if (kvc::rnd() & 1) {
      T*& p = co_await this_coro::return_place;
      ++l.placed;
      l.obj = p = objs + kvc::rnd() % 3;
    }
  }
  co_await rgate{h};
  switch (kvc::rnd() % 3) {
    case 0: l.threw = true; throw 3;
    case 1:
      if (l.placed)
        co_return rvo;
    default: {
      T* p = objs + kvc::rnd() % 3;
      l.obj = p;
      co_return *p;
    }
  }
}
struct plainco {
  struct promise_type {
    plainco get_return_object() { return {}; }
    std::suspend_never initial_suspend() noexcept { return {}; }
    std::suspend_never final_suspend() noexcept { return {}; }
    void return_void() noexcept {}
    void unhandled_exception() noexcept { std::abort(); }
  };
};
template <typename T>
static void check_stored(T& r, const note& l) {
  CHECK(get_v(r) == l.value);
  if (l.inplace)
    CHECK((const void*)&r == l.place);
  int n = 0;
  for (auto* p : g_made)
    n += p == (const void*)&r;
  bool strict = !std::is_same_v<T, int> && !(std::is_same_v<T, tri>);
  if (strict)
    CHECK(n == l.placed + !l.inplace);
}
template <typename T>
plainco consume(task<T> t, note& l, unsigned how, bool& done) {
  try {
    if (how & 1)
      co_await t.wait();
    if (how & 2) {
      auto&& r = co_await t;
      check_stored(r, l);
    }
    if (how & 4) {
      T x = co_await t;
      CHECK(get_v(x) == l.value);
    }
    CHECK(!l.threw || !(how & 6));
  } catch (int e) {
    CHECK(e == 3 && l.threw);
  }
  if (l.threw && (how & 6)) {
    bool again = false;
    try {
      (void)co_await t;
    } catch (int e2) {
      CHECK(e2 == 3);
      again = true;
    }
    CHECK(again);
  }
  done = true;
}
template <typename T, typename C>
static void take(C& t, note& l) {
  try {
    T x = t.get();
    CHECK(get_v(x) == l.value && !l.threw);
  } catch (int e) {
    CHECK(e == 3 && l.threw);
  }
}
template <typename T>
static void tasks() {
  g_made.clear();
  note l;
  std::coroutine_handle<> g = nullptr;
  bool gate = kvc::rnd() & 1, done = false;
  unsigned how = kvc::rnd() % 12;
  {
    if (how >= 9)
      gate = false;
    task<T> t = body<task<T>, T>(l, gate ? &g : nullptr, 0);
    if (how == 8) {
      ;
    } else if (how < 8) {
      consume(std::move(t), l, how, done);
    } else if (how == 9)
      take<T>(t, l);
    else if (how == 10) {
      t.start_and_detach();
    } else {
      auto h = t.start_and_detach(true);
      task<T> t2(h);
      if (kvc::rnd() & 1)
        take<T>(t2, l);
    }
    if (g)
      g.resume();
    if (how > 0 && how < 8)
      CHECK(done);
  }
  CHECK(g_live.empty());
}
template <typename T>
static void asyncs() {
  g_made.clear();
  note l;
  std::coroutine_handle<> g = nullptr;
  bool gate = kvc::rnd() & 1;
  {
    async_task<T> t = body<async_task<T>, T>(l, gate ? &g : nullptr, 0);
    unsigned how = kvc::rnd() % 4;
    if (how == 0)
      t.detach();
    if (g)
      g.resume();
    if (how == 1)
      t.detach();
    if (how == 2)
      take<T>(t, l);
  }
  CHECK(g_live.empty());
}
template <typename T>
static void refs() {
  note l;
  T objs[3] = {T(1), T(2), T(3)};
  size_t n = g_made.size();
  task<T&> t = rbody<task<T&>, T>(l, nullptr, objs);
  async_task<T&> a;
  note la;
  try {
    T& r = t.get();
    CHECK(&r == l.obj && !l.threw);
  } catch (int) {
    CHECK(l.threw);
  }
  try {
    a = rbody<async_task<T&>, T>(la, nullptr, objs);
    T& r = a.get();
    CHECK(&r == la.obj && !la.threw);
  } catch (int) {
    CHECK(la.threw);
  }
  CHECK(g_made.size() == n);
}
static task<void> vbody(bool thr) {
  if (thr)
    throw 3;
  co_return;
}
static task<tobj> cbody(int v, int boom) {
  g_boom = boom;
  co_return v;
}
template <typename T>
static void blocks() {
  g_made.clear();
  {
    return_block<T> b;
    unsigned n = kvc::rnd() % 4;
    for (unsigned i = 0; i < n; ++i) {
      int v = (int)kvc::rnd();
      g_made.clear();
      T* p = nullptr;
      switch (kvc::rnd() % 4) {
        case 0: b.return_value(T(v)); break;
        case 1: {
          T x(v);
          b.return_value(x);
          CHECK(get_v(x) == v);
          break;
        }
        case 2: {
          T x(v);
          b.return_value(std::move(x));
          break;
        }
        default: p = &b.return_place(v); b.return_value(rvo);
      }
      T&& r = b.result();
      CHECK(get_v(r) == v && (!p || p == &r));
      if (!std::is_same_v<T, int>) {
        int k = 0;
        for (auto* q : g_made)
          k += q == &r;
        CHECK(k == 1);
      }
    }
  }
  CHECK(g_live.empty());
}
SCENARIO(task_obj, 300) { tasks<obj>(); }
SCENARIO(task_dobj, 300) { tasks<dobj>(); }
SCENARIO(task_tri, 300) { tasks<tri>(); }
SCENARIO(task_ndt, 300) { tasks<ndt>(); }
SCENARIO(task_int, 300) { tasks<int>(); }
SCENARIO(async_obj, 200) { asyncs<obj>(); }
SCENARIO(async_dobj, 200) { asyncs<dobj>(); }
SCENARIO(async_tri, 200) { asyncs<tri>(); }
SCENARIO(async_ndt, 200) { asyncs<ndt>(); }
SCENARIO(async_int, 200) { asyncs<int>(); }
SCENARIO(ref_obj, 100) { refs<obj>(); }
SCENARIO(ref_int, 100) { refs<int>(); }
SCENARIO(block_obj, 100) { blocks<obj>(); }
SCENARIO(block_dobj, 100) { blocks<dobj>(); }
SCENARIO(block_tri, 100) { blocks<tri>(); }
SCENARIO(block_ndt, 100) { blocks<ndt>(); }
SCENARIO(block_int, 100) { blocks<int>(); }
SCENARIO(voids, 1) {
  vbody(false).get();
  try {
    vbody(true).get();
    CHECK(!"throws");
  } catch (int) {
  }
}
SCENARIO(throwing, 50) {
  int v = (int)kvc::rnd();
  {
    auto t = cbody(v, -1);
    tobj x = t.get();
    CHECK(x.v == v);
    auto t2 = cbody(v, 0);
    try {
      t2.get();
      CHECK(!"throws");
    } catch (int e) {
      CHECK(e == 7);
    }
    g_boom = -1;
    return_block<tobj> b;
    if (kvc::rnd() & 1)
      b.return_value(3);
    g_boom = 0;
    try {
      b.return_value(4);
      CHECK(!"throws");
    } catch (int e) {
      CHECK(e == 7);
    }
    g_boom = -1;
  }
  CHECK(g_live.empty());
}
template <typename T>
static void expects() {
  {
    int v = (int)kvc::rnd();
    expected<T, err> a(T{v}), b{unexpected(err(v))};
    expected<T, err> a2(std::move(a)), b2(std::move(b));
    CHECK(a2.has_value() && (bool)a2 && get_v(*a2) == v);
    CHECK(!b2.has_value() && !(bool)b2 && b2.error().v == v);
  }
  CHECK(g_live.empty());
}
SCENARIO(expected_obj, 20) { expects<obj>(); }
SCENARIO(expected_tri, 20) { expects<tri>(); }
SCENARIO(expected_int, 20) { expects<int>(); }
SCENARIO(expected_void, 1) {
  {
    expected<void, err> a, b{unexpected(err(3))};
    CHECK(a.has_value() && !b.has_value() && b.error().v == 3);
  }
  CHECK(g_live.empty());
}
