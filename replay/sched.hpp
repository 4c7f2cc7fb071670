// Deterministic scheduler for native replays: std::atomic / mutex / condition_variable / thread used by the library
// headers included after this file are replaced by versions that hand a baton between real threads under a seeded
// random schedule.  Compiled with -DKVC_FREE the originals stay (free-running, for tsan).
#pragma once
#include <bits/stdc++.h>
#include <coroutine>
#include <cassert>
#include <unistd.h>

namespace kvc {
#ifdef KVC_FREE
inline std::atomic<unsigned long long> rng_next{1};
inline thread_local unsigned long long rng_state = rng_next.fetch_add(0x9E3779B97F4A7C15ull) | 1;
#else
inline unsigned long long rng_state = 1;
#endif
inline unsigned rnd() {
  rng_state ^= rng_state << 13;
  rng_state ^= rng_state >> 7;
  rng_state ^= rng_state << 17;
  return (unsigned)(rng_state >> 11);
}
[[noreturn]] inline void die(const char* what) {
  fprintf(stderr, "FAILED: %s\n", what);
  fflush(stderr);
  _exit(97);
}
#define CHECK(c) ((c) ? (void)0 : kvc::die(#c " at line " KVC_STR(__LINE__)))
#define KVC_STR(x) KVC_STR2(x)
#define KVC_STR2(x) #x

#ifndef KVC_FREE
struct Th {
  int id;
  bool finished = false;
  std::function<bool()> pred;  // empty: runnable
};
struct Sched {
  std::mutex m;
  std::condition_variable cv;
  std::vector<std::unique_ptr<Th>> ths;
  int current = -1;
  bool active = false;
  unsigned sw = 50;     // switch probability, percent
  unsigned spurious = 5;
  long steps = 0;
};
inline Sched& S() {
  static Sched* s = new Sched;
  return *s;
}
inline thread_local Th* self = nullptr;

inline int pick(Th* me) {
  auto& s = S();
  std::vector<int> en;
  bool meok = false;
  for (auto& t : s.ths)
    if (!t->finished && (!t->pred || t->pred())) {
      en.push_back(t->id);
      if (t.get() == me)
        meok = true;
    }
  if (en.empty())
    die("deadlock: every thread is blocked");
  if (meok && rnd() % 100 >= s.sw)
    return me->id;
  return en[rnd() % en.size()];
}
inline void wait_turn(std::unique_lock<std::mutex>& l) {
  auto& s = S();
  Th* me = self;
  s.cv.wait(l, [&] { return s.current == me->id; });
}
inline void sched(bool dead = false) {
  auto& s = S();
  std::unique_lock l(s.m);
  if (++s.steps > 3000000)
    die("livelock: step limit");
  if (dead)
    self->finished = true;
  bool any = false;
  for (auto& t : s.ths)
    any |= !t->finished;
  if (!any)
    return;
  int n = pick(self);
  if (!dead && n == self->id) {
    self->pred = nullptr;
    return;
  }
  s.current = n;
  s.cv.notify_all();
  if (!dead) {
    wait_turn(l);
    self->pred = nullptr;
  }
}
inline void point() {
  if (self)
    sched();
}
inline void block(std::function<bool()> p) {
  if (!self)
    die("blocking outside of a scheduled thread");
  self->pred = std::move(p);
  sched();
}
#else
inline void point() {}
#endif
}  // namespace kvc

#ifndef KVC_FREE
namespace kvc {
template <typename T>
inline constexpr bool arith = (std::is_integral_v<T> && !std::is_same_v<T, bool>) || std::is_pointer_v<T>;
inline std::map<const void*, int>& waiters() {
  static auto* m = new std::map<const void*, int>;
  return *m;
}
inline std::map<const void*, long>& epochs() {
  static auto* m = new std::map<const void*, long>;
  return *m;
}
template <typename T, typename D>
struct aops {
  using value_type = T;
  T load(std::memory_order = std::memory_order_seq_cst) const noexcept {
    point();
    return ref();
  }
  void store(T x, std::memory_order = std::memory_order_seq_cst) noexcept {
    point();
    ref() = x;
    point();
  }
  T exchange(T x, std::memory_order = std::memory_order_seq_cst) noexcept {
    point();
    T o = ref();
    ref() = x;
    point();
    return o;
  }
  bool cas(T& e, T d, bool weak) noexcept {
    point();
    T o = ref();
    if (o == e && !(weak && self && rnd() % 100 < S().spurious)) {
      ref() = d;
      point();
      return true;
    }
    e = o;
    return false;
  }
  bool compare_exchange_weak(T& e, T d, std::memory_order = std::memory_order_seq_cst, std::memory_order = std::memory_order_seq_cst) noexcept {
    return cas(e, d, true);
  }
  bool compare_exchange_strong(T& e, T d, std::memory_order = std::memory_order_seq_cst, std::memory_order = std::memory_order_seq_cst) noexcept {
    return cas(e, d, false);
  }
  template <typename U>
  T fetch_add(U n, std::memory_order = std::memory_order_seq_cst) noexcept
    requires arith<T>
  {
    point();
    T o = ref();
    ref() = (T)(o + n);
    point();
    return o;
  }
  template <typename U>
  T fetch_sub(U n, std::memory_order = std::memory_order_seq_cst) noexcept
    requires arith<T>
  {
    point();
    T o = ref();
    ref() = (T)(o - n);
    point();
    return o;
  }
  T fetch_or(T n, std::memory_order = std::memory_order_seq_cst) noexcept
    requires std::is_integral_v<T>
  {
    point();
    T o = ref();
    ref() = (T)(o | n);
    point();
    return o;
  }
  T fetch_and(T n, std::memory_order = std::memory_order_seq_cst) noexcept
    requires std::is_integral_v<T>
  {
    point();
    T o = ref();
    ref() = (T)(o & n);
    point();
    return o;
  }
  T operator++() noexcept requires arith<T> { return (T)(fetch_add(1) + 1); }
  T operator++(int) noexcept requires arith<T> { return fetch_add(1); }
  T operator--() noexcept requires arith<T> { return (T)(fetch_sub(1) - 1); }
  T operator--(int) noexcept requires arith<T> { return fetch_sub(1); }
  operator T() const noexcept { return load(); }
  void wait(T old, std::memory_order = std::memory_order_seq_cst) const noexcept {
    point();
    while (ref() == old) {
      long e = epochs()[&ref()];
      const void* a = &ref();
      block([a, e] { return epochs()[a] != e; });
    }
  }
  void notify_one() noexcept { notify(); }
  void notify_all() noexcept { notify(); }
  void notify() noexcept {
    point();
    // address only, as in libstdc++: notifying an object that the woken thread has already destroyed is tolerated
    epochs()[&ref()]++;
  }

 private:
  T& ref() const noexcept { return const_cast<D*>(static_cast<const D*>(this))->obj(); }
};
}  // namespace kvc
namespace std {
template <typename T>
struct kvc_atomic : kvc::aops<T, kvc_atomic<T>> {
  T v_;
  constexpr kvc_atomic() noexcept : v_() {}
  constexpr kvc_atomic(T x) noexcept : v_(x) {}
  kvc_atomic(const kvc_atomic&) = delete;
  kvc_atomic& operator=(const kvc_atomic&) = delete;
  T operator=(T x) noexcept {
    this->store(x);
    return x;
  }
  T& obj() noexcept { return v_; }
  static constexpr bool is_always_lock_free = true;
};
template <typename T>
struct kvc_atomic_ref : kvc::aops<T, kvc_atomic_ref<T>> {
  T& r_;
  explicit kvc_atomic_ref(T& x) noexcept : r_(x) {}
  kvc_atomic_ref(const kvc_atomic_ref&) = default;
  T operator=(T x) noexcept {
    this->store(x);
    return x;
  }
  T& obj() noexcept { return r_; }
};
using kvc_atomic_bool = kvc_atomic<bool>;
using kvc_atomic_int8_t = kvc_atomic<int8_t>;
using kvc_atomic_uint8_t = kvc_atomic<uint8_t>;
using kvc_atomic_int = kvc_atomic<int>;
using kvc_atomic_size_t = kvc_atomic<size_t>;
using kvc_atomic_ptrdiff_t = kvc_atomic<ptrdiff_t>;
struct kvc_mutex {
  bool held = false;
  constexpr kvc_mutex() noexcept = default;
  kvc_mutex(const kvc_mutex&) = delete;
  ~kvc_mutex() {
    if (held)
      kvc::die("mutex destroyed while locked");
  }
  void lock() {
    kvc::point();
    if (held) {
      if (!kvc::self)
        kvc::die("mutex deadlock");
      kvc::block([this] { return !held; });
    }
    held = true;
  }
  bool try_lock() {
    kvc::point();
    if (held)
      return false;
    return held = true;
  }
  void unlock() {
    if (!held)
      kvc::die("unlock of a mutex that is not locked");
    held = false;
    kvc::point();
  }
};
struct kvc_condition_variable {
  std::list<bool*> ws;
  kvc_condition_variable() = default;
  kvc_condition_variable(const kvc_condition_variable&) = delete;
  ~kvc_condition_variable() {
    if (!ws.empty())
      kvc::die("condition variable destroyed while a thread waits on it");
  }
  template <typename L>
  void wait(L& l) {
    auto* f = new bool(false);
    ws.push_back(f);
    bool sp = kvc::self && kvc::rnd() % 100 < kvc::S().spurious;
    l.mutex()->held = false;
    kvc::block([f, sp] { return *f || sp; });
    ws.remove(f);
    delete f;
    l.mutex()->lock();
  }
  template <typename L, typename P>
  void wait(L& l, P p) {
    while (!p())
      wait(l);
  }
  void notify_one() {
    kvc::point();
    std::vector<bool*> c;
    for (bool* w : ws)
      if (!*w)
        c.push_back(w);
    if (!c.empty())
      *c[kvc::rnd() % c.size()] = true;
  }
  void notify_all() {
    kvc::point();
    for (bool* w : ws)
      *w = true;
  }
};
struct kvc_thread {
  using id = std::thread::id;
  using native_handle_type = std::thread::native_handle_type;
  static inline int fail_after = -1;  // throw system_error instead of starting the n-th thread
  std::thread t_;
  std::shared_ptr<bool> done_;
  kvc_thread() noexcept = default;
  kvc_thread(kvc_thread&& o) noexcept = default;
  kvc_thread& operator=(kvc_thread&& o) noexcept = default;
  template <typename F, typename... A>
    requires(!std::is_same_v<std::remove_cvref_t<F>, kvc_thread>)
  explicit kvc_thread(F&& f, A&&... a) {
    kvc::point();
    if (fail_after >= 0 && fail_after-- == 0)
      throw std::system_error(std::make_error_code(std::errc::resource_unavailable_try_again));
    auto& s = kvc::S();
    kvc::Th* th;
    {
      std::unique_lock l(s.m);
      s.ths.push_back(std::make_unique<kvc::Th>());
      th = s.ths.back().get();
      th->id = (int)s.ths.size() - 1;
    }
    done_ = std::make_shared<bool>(false);
    auto d = done_;
    t_ = std::thread(
        [th, d](auto f, auto... a) mutable {
          kvc::self = th;
          {
            std::unique_lock l(kvc::S().m);
            kvc::wait_turn(l);
          }
          std::invoke(std::move(f), std::move(a)...);
          *d = true;
          kvc::sched(true);
        },
        std::forward<F>(f), std::forward<A>(a)...);
  }
  bool joinable() const noexcept { return t_.joinable(); }
  void join() {
    if (!t_.joinable())
      kvc::die("join of a thread that is not joinable");
    kvc::point();
    if (kvc::self) {
      auto d = done_;
      if (!*d)
        kvc::block([d] { return *d; });
    }
    t_.join();
  }
  void detach() {
    t_.detach();
    kvc::point();
  }
  id get_id() const noexcept { return t_.get_id(); }
  native_handle_type native_handle() { return t_.native_handle(); }
  static unsigned hardware_concurrency() noexcept { return 3; }
};
}  // namespace std
#define atomic kvc_atomic
#define atomic_ref kvc_atomic_ref
#define atomic_bool kvc_atomic_bool
#define atomic_int8_t kvc_atomic_int8_t
#define atomic_uint8_t kvc_atomic_uint8_t
#define atomic_int kvc_atomic_int
#define atomic_size_t kvc_atomic_size_t
#define atomic_ptrdiff_t kvc_atomic_ptrdiff_t
#define mutex kvc_mutex
#define condition_variable kvc_condition_variable
#define thread kvc_thread
namespace kvc {
// runs `body` as the first scheduled thread; it may start others with std::thread
template <typename F>
void run_one(unsigned long long seed, F body) {
  auto& s = S();
  rng_state = seed * 0x9E3779B97F4A7C15ull + 88172645463325252ull;
  for (int i = 0; i < 5; ++i)
    rnd();
  s.ths.clear();
  s.steps = 0;
  static const unsigned sws[] = {50, 10, 80, 30, 100, 3};
  s.sw = sws[seed % 6];
  s.spurious = seed % 4 == 0 ? 30 : 3;
  s.ths.push_back(std::make_unique<Th>());
  self = s.ths[0].get();
  self->id = 0;
  s.current = 0;
  body();
  // let the remaining (detached) threads finish
  for (;;) {
    bool any = false;
    for (auto& t : s.ths)
      if (t.get() != self && !t->finished)
        any = true;
    if (!any)
      break;
    sched();
  }
  self = nullptr;
}
}  // namespace kvc
#else
namespace kvc {
template <typename F>
void run_one(unsigned long long seed, F body) {
  rng_state = seed * 0x9E3779B97F4A7C15ull + 88172645463325252ull;
  body();
}
}  // namespace kvc
#endif

namespace kvc {
struct Scenario {
  const char* name;
  void (*fn)();
  int reps;
};
inline std::vector<Scenario>& scenarios() {
  static std::vector<Scenario> v;
  return v;
}
struct Reg {
  Reg(const char* n, void (*f)(), int reps) { scenarios().push_back({n, f, reps}); }
};
#define SCENARIO(n, reps)                       \
  static void n();                              \
  static kvc::Reg reg_##n(#n, &n, reps);        \
  static void n()
}  // namespace kvc

int main(int argc, char** argv) {
  if (argc > 1 && !strcmp(argv[1], "--list")) {
    for (auto& s : kvc::scenarios())
      puts(s.name);
    return 0;
  }
  for (auto& s : kvc::scenarios())
    if (argc < 2 || !strcmp(argv[1], s.name)) {
      int from = argc > 2 ? atoi(argv[2]) : 1, to = argc > 2 ? from : s.reps;
#ifdef KVC_FREE
      to = from + (to - from) / 4;
#endif
      for (int i = from; i <= to; ++i) {
        if (argc > 3)
          fprintf(stderr, "seed %d\n", i);
        char buf[64];
        kvc::run_one(i, s.fn);
      }
      if (argc < 2)
        printf("%s ok\n", s.name);
    }
  return 0;
}
