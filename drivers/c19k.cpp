// the coroutine protocol of a promise, one step at a time, on frames whose bodies are arbitrary
#include "gate.hpp"
#include <kelcoro/channel.hpp>
using dd::channel;
using dd::channel_iterator;
using dd::elements_of;
using dd::by_ref;
#define BACK ((void*)1)  // control returns to whoever resumed
template <typename A, typename H>
static void* suspend(A& a, H h) {
  if (a.await_ready())
    return nullptr;
  using R = decltype(a.await_suspend(h));
  if constexpr (std::is_void_v<R>) {
    a.await_suspend(h);
    return BACK;
  } else if constexpr (std::is_same_v<R, bool>)
    return a.await_suspend(h) ? BACK : nullptr;
  else {
    std::coroutine_handle<> n = a.await_suspend(h);
    return n == std::noop_coroutine() ? BACK : n.address();
  }
}
#define H(T, h) channel<T>::handle_type::from_address(h)
template <typename A>
static void finish(A& a) {
  (void)a.await_resume();
  a.~A();
}
struct stateless {
  static void* allocate(size_t n) { return new char[n]; }
  static void deallocate(void* p, size_t) noexcept { delete[] static_cast<char*>(p); }
};
using rh = std::coroutine_handle<dd::resourced_promise<channel<int>::promise_type, stateless>>;
extern "C" {
#define STEP(N, T, EXPR, PARAM)                                                   \
  void* drv_y_##N(void* h, PARAM v, void* buf) {                                  \
    auto hh = H(T, h);                                                            \
    using A = decltype(hh.promise().yield_value(EXPR));                           \
    return suspend(*new (buf) A(hh.promise().yield_value(EXPR)), hh);             \
  }                                                                               \
  void drv_f_##N(void* h, PARAM v, void* buf) {                                   \
    auto hh = H(T, h);                                                            \
    finish(*(decltype(hh.promise().yield_value(EXPR))*)buf);                      \
  }
STEP(int_rv, int, std::move(*v), int*)
STEP(int_copy, int, std::as_const(*v), int*)
STEP(int_lv, int, *v, int*)
STEP(int_ref, int, by_ref<int&>{*v}, int*)
STEP(ref_lv, int&, *v, int*)
STEP(ref_ref, int&, by_ref<int&>{*v}, int*)
STEP(own_rv, own, std::move(*v), own*)
STEP(own_ref, own, by_ref<own&>{*v}, own*)
STEP(cpy_copy, cpy, std::as_const(*v), cpy*)
STEP(cpy_lv, cpy, *v, cpy*)
STEP(int_leaf, int, elements_of<channel<int>&&>{std::move(*v)}, channel<int>*)
STEP(int_leaflv, int, elements_of<channel<int>&>{*v}, channel<int>*)
STEP(ref_leaf, int&, elements_of<channel<int&>&&>{std::move(*v)}, channel<int&>*)
STEP(own_leaf, own, elements_of<channel<own>&&>{std::move(*v)}, channel<own>*)
void* drv_y_int_rleaf(void* h, channel<int>* v, void* buf) {  // the yielding body uses a memory resource
  auto hh = rh::from_address(h);
  using A = decltype(hh.promise().yield_value(elements_of<channel<int>&&>{std::move(*v)}));
  return suspend(*new (buf) A(hh.promise().yield_value(elements_of<channel<int>&&>{std::move(*v)})), hh);
}
void drv_f_int_rleaf(void* h, channel<int>* v, void* buf) { drv_f_int_leaf(h, v, buf); }
void* drv_y_int_rcopy(void* h, int* v, void* buf) {
  auto hh = rh::from_address(h);
  using A = decltype(hh.promise().yield_value(std::as_const(*v)));
  return suspend(*new (buf) A(hh.promise().yield_value(std::as_const(*v))), hh);
}
void drv_f_int_rcopy(void* h, int* v, void* buf) { drv_f_int_copy(h, v, buf); }
#define OPS(N, T)                                                                                   \
  void* drv_final_##N(void* h) {                                                                    \
    auto hh = H(T, h);                                                                              \
    auto a = hh.promise().final_suspend();                                                          \
    return suspend(a, hh);                                                                          \
  }                                                                                                 \
  void drv_unhandled_##N(void* h) {                                                                 \
    try {                                                                                           \
      ext_effect();                                                                                 \
    } catch (...) {                                                                                 \
      H(T, h).promise().unhandled_exception();                                                      \
    }                                                                                               \
  }                                                                                                 \
  void drv_empty_##N(channel<T>* g) { new (g) channel<T>(); }                                   \
  void drv_dtor_##N(channel<T>* g) { g->~channel(); }                                           \
  void drv_clear_##N(channel<T>* g) { g->clear(); }                                               \
  void* drv_release_##N(channel<T>* g) { return g->release().address(); }                         \
  void* drv_raw_##N(channel<T>* g) { return g->raw_handle().address(); }                          \
  void drv_reset_##N(channel<T>* g, void* h) { g->reset(H(T, h)); }                               \
  void drv_move_##N(channel<T>* d, channel<T>* s) { new (d) channel<T>(std::move(*s)); }      \
  void drv_assign_##N(channel<T>* d, channel<T>* s) { *d = std::move(*s); }                     \
  void drv_swap_##N(channel<T>* d, channel<T>* s) { d->swap(*s); }                              \
  bool drv_isempty_##N(channel<T>* g) { return g->empty(); }                                      \
  void* drv_begin_##N(channel<T>* g, void* c) {                                                     \
    auto a = g->begin();                                                                            \
    return suspend(a, std::coroutine_handle<>::from_address(c));                                    \
  }                                                                                                 \
  void* drv_next_##N(channel<T>* g, void* c) {                                                      \
    auto a = g->next();                                                                             \
    return suspend(a, std::coroutine_handle<>::from_address(c));                                    \
  }                                                                                                 \
  void* drv_inc_##N(channel<T>* g, void* c) {                                                       \
    channel_iterator<T> it(*g);                                                                     \
    auto a = ++it;                                                                                  \
    return suspend(a, std::coroutine_handle<>::from_address(c));                                    \
  }                                                                                                 \
  void drv_go_##N(channel<T>* g, void* c) {                                                         \
    auto a = g->begin();                                                                            \
    std::coroutine_handle<>::from_address(suspend(a, std::coroutine_handle<>::from_address(c))).resume(); \
  }                                                                                                 \
  void* drv_cur_##N(channel<T>* g) {                                                                \
    auto a = g->next();                                                                             \
    return (void*)a.await_resume();                                                                 \
  }                                                                                                 \
  void* drv_at_##N(channel<T>* g) {                                                                 \
    channel_iterator<T> it(*g);                                                                     \
    return it == g->end() ? nullptr : (void*)it.operator->();                                       \
  }                                                                                                 \
  void drv_taken_##N(channel<T>* g) {                                                               \
    if (auto e = g->take_exception())                                                               \
      try {                                                                                         \
        std::rethrow_exception(std::move(e));                                                       \
      } catch (...) {                                                                               \
        ext_caught();                                                                               \
      }                                                                                             \
    else                                                                                            \
      ext_body();                                                                                   \
  }                                                                                                 \
  void drv_itdead_##N(channel<T>* g) {                                                              \
    try {                                                                                           \
      channel_iterator<T> it(*g);                                                                   \
    } catch (...) {                                                                                 \
      ext_caught();                                                                                 \
      return;                                                                                       \
    }                                                                                               \
    ext_body();                                                                                     \
  }
OPS(int, int)
OPS(ref, int&)
OPS(own, own)
OPS(cpy, cpy)
channel<int> three(int k) {
  co_yield ext_val();
  if (k)
    co_yield elements_of(three(k - 1));
}
channel<int&> three_ref(int k) {
  co_yield *ext_ref();
  if (k)
    co_yield elements_of(three_ref(k - 1));
}
channel<cpy> three_cpy(int k) {
  co_yield cpy(ext_val());
  if (k)
    co_yield elements_of(three_cpy(k - 1));
}
channel<own> three_own(int k) {
  co_yield own(ext_val());
  if (k)
    co_yield elements_of(three_own(k - 1));
}
void drv_three_int(channel<int>* g, int k) { new (g) channel<int>(three(k)); }
void drv_three_ref(channel<int&>* g, int k) { new (g) channel<int&>(three_ref(k)); }
void drv_three_own(channel<own>* g, int k) { new (g) channel<own>(three_own(k)); }
void drv_three_cpy(channel<cpy>* g, int k) { new (g) channel<cpy>(three_cpy(k)); }
void drv_nop() {}
}
