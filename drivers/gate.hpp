#pragma once
#include "noaddr.hpp"
// shared pieces of the drivers: an awaitable that gives its handle away, a movable-only class owning heap memory, a
// plain coroutine used as an observer
#include <utility>
#include <memory>
#include <atomic>
#include <thread>
#include <optional>
#include <vector>
#include <tuple>
#include <variant>
#include <exception>
#include <coroutine>
struct gate {
  void** h;
  bool await_ready() const noexcept { return false; }
  void await_suspend(std::coroutine_handle<> c) noexcept { *h = c.address(); }
  void await_resume() noexcept {}
};
// owns heap memory, empty after a move, not default constructible
struct own {
  int* p;
  explicit own(int v) : p(new int(v)) {}
  own(own&& o) noexcept : p(std::exchange(o.p, nullptr)) {}
  own& operator=(own&& o) noexcept {
    std::swap(p, o.p);
    return *this;
  }
  ~own() { delete p; }
  no_addr operator&() const noexcept { return {}; }
};
// the same with a copy that does not share: what is copied stays as it was
struct cpy {
  int* p;
  explicit cpy(int v) : p(new int(v)) {}
  cpy(const cpy& o) : p(o.p ? new int(*o.p) : nullptr) {}
  cpy(cpy&& o) noexcept : p(std::exchange(o.p, nullptr)) {}
  cpy& operator=(cpy&& o) noexcept {
    std::swap(p, o.p);
    return *this;
  }
  ~cpy() { delete p; }
  no_addr operator&() const noexcept { return {}; }
};
// observer coroutine: starts suspended, stays at its end, destroyed by hand
struct co {
  struct promise_type {
    co get_return_object() { return {std::coroutine_handle<promise_type>::from_promise(*this)}; }
    std::suspend_always initial_suspend() noexcept { return {}; }
    std::suspend_always final_suspend() noexcept { return {}; }
    void return_void() noexcept {}
    void unhandled_exception() noexcept { std::terminate(); }
  };
  std::coroutine_handle<promise_type> h;
};
extern "C" {
int ext_val();      // may throw
int* ext_ref();     // may throw
void ext_effect();  // may throw
void ext_body() noexcept;
void ext_got(int) noexcept;
void ext_gotref(int*) noexcept;
void ext_gotvoid() noexcept;
void ext_caught() noexcept;
void ext_event(int) noexcept;
}
