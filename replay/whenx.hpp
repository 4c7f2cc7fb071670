#include "sched.hpp"
#include <kelcoro/algorithm.hpp>
using namespace dd;
struct own {
  std::unique_ptr<int> p = std::make_unique<int>(0);
  own() = default;
  explicit own(int v) : p(new int(v)) {}
  own(own&&) = default;
  own& operator=(own&&) = default;
};
struct xgate {
  std::atomic<void*>& h;
  bool await_ready() const noexcept { return false; }
  void await_suspend(std::coroutine_handle<> c) noexcept { h.store(c.address()); }
  void await_resume() noexcept {}
};
struct slot {
  std::atomic<void*> h{nullptr};
  std::atomic<int> begun{0}, ended{0};
  bool gated = false, thr = false;
  void go() {
    for (int i = 0; i < 20000 && !h.load(); ++i)
      std::this_thread::yield();
    if (h.load())
      std::coroutine_handle<>::from_address(h.load()).resume();
  }
};
template <typename T>
static task<T> kid(slot& s, int v) {
  s.begun.fetch_add(1);
  if (s.gated)
    co_await xgate{s.h};
  s.ended.fetch_add(1);
  if (s.thr)
    throw v;
  if constexpr (!std::is_void_v<T>)
    co_return T(v);
}
template <typename T>
static bool is(expected<T, std::exception_ptr>& e, bool thr, int v) {
  if (e.has_value() == thr)
    return false;
  if (thr) {
    try {
      std::rethrow_exception(e.error());
    } catch (int x) {
      return x == v;
    } catch (...) {
      return false;
    }
  }
  if constexpr (std::is_void_v<T>)
    return true;
  else if constexpr (std::is_same_v<T, own>)
    return (*e).p && *(*e).p == v;
  else
    return *e == v;
}
struct co {
  struct promise_type {
    co get_return_object() { return {std::coroutine_handle<promise_type>::from_promise(*this)}; }
    std::suspend_always initial_suspend() noexcept { return {}; }
    std::suspend_always final_suspend() noexcept { return {}; }
    void return_void() noexcept {}
    void unhandled_exception() noexcept { std::terminate(); }
  };
  std::coroutine_handle<promise_type> h;
};
