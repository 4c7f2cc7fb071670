#include "noaddr.hpp"
#include <utility>
#include <memory>
#include <atomic>
#include <thread>
#include <optional>
#include <vector>
#include <kelcoro/async_task.hpp>
using namespace dd;
// suspends and gives its handle away
struct gate {
  void** h;
  bool await_ready() const noexcept { return false; }
  void await_suspend(std::coroutine_handle<> c) noexcept { *h = c.address(); }
  void await_resume() noexcept {}
};
// owns heap memory, empty after a move
struct own {
  int* p;
  explicit own(int v) : p(new int(v)) {}
  own(own&& o) noexcept : p(std::exchange(o.p, nullptr)) {}
  ~own() { delete p; }
  NO_ADDR
};
extern "C" {
int ext_val();       // may throw
int* ext_ref();      // may throw
void ext_effect();   // may throw
}
async_task<int> body_int(void** h) {
  if (h)
    co_await gate{h};
  co_return ext_val();
}
async_task<own> body_own(void** h) {
  if (h)
    co_await gate{h};
  co_return own(ext_val());
}
async_task<int&> body_ref(void** h) {
  if (h)
    co_await gate{h};
  co_return *ext_ref();
}
async_task<void> body_void(void** h) {
  if (h)
    co_await gate{h};
  ext_effect();
}
extern "C" {
#define OPS(N, T)                                                                        \
  void drv_start_##N(async_task<T>* t, void** h) { new (t) async_task<T>(body_##N(h)); } \
  void drv_empty_##N(async_task<T>* t) { new (t) async_task<T>(); }                      \
  void drv_dtor_##N(async_task<T>* t) { t->~async_task(); }                              \
  void drv_detach_##N(async_task<T>* t) { t->detach(); }                                 \
  void drv_wait_##N(async_task<T>* t) { t->wait(); }                                     \
  bool drv_ready_##N(async_task<T>* t) { return t->ready(); }                            \
  bool drv_isempty_##N(async_task<T>* t) { return t->empty(); }                          \
  void drv_move_##N(async_task<T>* d, async_task<T>* s) { new (d) async_task<T>(std::move(*s)); } \
  void drv_assign_##N(async_task<T>* d, async_task<T>* s) { *d = std::move(*s); }        \
  void drv_swap_##N(async_task<T>* d, async_task<T>* s) { swap(*d, *s); }
OPS(int, int)
OPS(own, own)
OPS(ref, int&)
OPS(void, void)
int drv_get_int(async_task<int>* t) { return t->get(); }
int drv_get_own(async_task<own>* t) {
  own o = t->get();
  return *o.p;
}
int* drv_get_ref(async_task<int&>* t) { return &t->get(); }
void drv_get_void(async_task<void>* t) { t->get(); }
void drv_resume(void* h) { std::coroutine_handle<>::from_address(h).resume(); }
}
