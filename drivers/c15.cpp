#include "gate.hpp"
#include <kelcoro/task.hpp>
using namespace dd;
extern "C" {
void ext_owner(void*, void*) noexcept;
void ext_start(void*) noexcept;
void ext_end(void*) noexcept;
}
struct Ctx {
  NO_ADDR
  int tag = 5;
  template <typename O, typename T>
  void on_owner_setted(std::coroutine_handle<O> o, std::coroutine_handle<T> t) noexcept { ext_owner(o.address(), t.address()); }
  template <typename T>
  void on_start(std::coroutine_handle<T> t) noexcept { ext_start(t.address()); }
  template <typename T>
  void on_end(std::coroutine_handle<T> t) noexcept { ext_end(t.address()); }
};
struct live {  // a body local: released when the body ends or the frame is destroyed
  own o{1};
};
#define BODY(N, T, ...)                 \
  task<T, Ctx> body_##N(void** h) {     \
    ext_body();                         \
    live l;                             \
    if (h)                              \
      co_await gate{h};                 \
    __VA_ARGS__;                        \
  }
BODY(int, int, co_return ext_val())
BODY(own, own, co_return own(ext_val()))
BODY(ref, int&, co_return *ext_ref())
BODY(void, void, ext_effect())
static void see(int v) { ext_got(v); }
static void see(own v) { ext_got(*v.p); }
template <typename T>
co owner(task<T, Ctx>& t) {
  try {
    if constexpr (std::is_void_v<T>) {
      co_await t;
      ext_gotvoid();
    } else if constexpr (std::is_reference_v<T>)
      ext_gotref(&co_await t);
    else
      see(T(co_await t));
  } catch (...) {
    ext_caught();
  }
}
template <typename T>
co waiter(task<T, Ctx>& t) {
  co_await t.wait();
  ext_event(1);
}
template <typename T>
co proxied(task<T, Ctx>& t, std::coroutine_handle<co::promise_type> p) {
  co_await t.wait_with_proxy_owner(p);
  ext_event(1);
}
task<int, Ctx> outer(task<int, Ctx>* inner) { co_return co_await *inner; }
extern "C" {
#define OPS(N, T)                                                                              \
  void drv_start_##N(task<T, Ctx>* t, void** h) { new (t) task<T, Ctx>(body_##N(h)); }         \
  void drv_empty_##N(task<T, Ctx>* t) { new (t) task<T, Ctx>(); }                              \
  void drv_dtor_##N(task<T, Ctx>* t) { t->~task(); }                                           \
  void* drv_detach_##N(task<T, Ctx>* t) { return t->detach().address(); }                      \
  void* drv_release_##N(task<T, Ctx>* t) { return t->release().address(); }                    \
  void drv_adopt_##N(task<T, Ctx>* t, void* h) {                                               \
    new (t) task<T, Ctx>(task<T, Ctx>::handle_type::from_address(h));                          \
  }                                                                                            \
  void* drv_raw_##N(task<T, Ctx>* t) { return t->raw_handle().address(); }                     \
  int* drv_ctx_##N(task<T, Ctx>* t) { return t->get_context() ? &t->get_context()->tag : nullptr; } \
  bool drv_isempty_##N(task<T, Ctx>* t) { return t->empty() && !*t; }                          \
  bool drv_nonempty_##N(task<T, Ctx>* t) { return !t->empty() && (bool)*t; }                   \
  void* drv_sad_##N(task<T, Ctx>* t, bool stop) {                                              \
    return stop ? t->start_and_detach(true).address() : t->start_and_detach().address();       \
  }                                                                                            \
  void drv_move_##N(task<T, Ctx>* d, task<T, Ctx>* s) { new (d) task<T, Ctx>(std::move(*s)); } \
  void drv_assign_##N(task<T, Ctx>* d, task<T, Ctx>* s) { *d = std::move(*s); }                \
  void* drv_owner_##N(task<T, Ctx>* t) { return owner<T>(*t).h.address(); }                    \
  void* drv_waiter_##N(task<T, Ctx>* t) { return waiter<T>(*t).h.address(); }                  \
  void* drv_proxied_##N(task<T, Ctx>* t, void* p) {                                            \
    return proxied<T>(*t, std::coroutine_handle<co::promise_type>::from_address(p)).h.address(); \
  }
OPS(int, int)
OPS(own, own)
OPS(ref, int&)
OPS(void, void)
void drv_outer(task<int, Ctx>* t, task<int, Ctx>* inner) { new (t) task<int, Ctx>(outer(inner)); }
int drv_get_int(task<int, Ctx>* t) { return t->get(); }
int drv_get_own(task<own, Ctx>* t) {
  own o = t->get();
  return *o.p;
}
int* drv_get_ref(task<int&, Ctx>* t) { return &t->get(); }
void drv_get_void(task<void, Ctx>* t) { t->get(); }
void drv_resume(void* h) { std::coroutine_handle<>::from_address(h).resume(); }
void drv_destroy(void* h) { std::coroutine_handle<>::from_address(h).destroy(); }
bool drv_done(void* h) { return std::coroutine_handle<>::from_address(h).done(); }
}
