// the coroutine protocol of a promise, one step at a time, on frames whose bodies are arbitrary
#include "gate.hpp"
#include <kelcoro/generator.hpp>
using dd::generator;
using dd::generator_iterator;
using dd::elements_of;
using dd::by_ref;
#define BACK ((void*)1)  // control returns to whoever resumed
template <typename A, typename H>
static void* suspend(A& a, H h) {
  if (a.await_ready())
    return nullptr;
  using R = decltype(a.await_suspend(h));
  if constexpr (std::is_void_v<R>) {
    a.await_suspend(h);
    return BACK;
  } else if constexpr (std::is_same_v<R, bool>)
    return a.await_suspend(h) ? BACK : nullptr;
  else {
    std::coroutine_handle<> n = a.await_suspend(h);
    return n == std::noop_coroutine() ? BACK : n.address();
  }
}
#define H(T, h) generator<T>::handle_type::from_address(h)
template <typename A>
static void finish(A& a) {
  (void)a.await_resume();
  a.~A();
}
struct stateless {
  static void* allocate(size_t n) { return new char[n]; }
  static void deallocate(void* p, size_t) noexcept { delete[] static_cast<char*>(p); }
};
using rh = std::coroutine_handle<dd::resourced_promise<generator<int>::promise_type, stateless>>;
extern "C" {
#define STEP(N, T, EXPR, PARAM)                                                   \
  void* drv_y_##N(void* h, PARAM v, void* buf) {                                  \
    auto hh = H(T, h);                                                            \
    using A = decltype(hh.promise().yield_value(EXPR));                           \
    return suspend(*new (buf) A(hh.promise().yield_value(EXPR)), hh);             \
  }                                                                               \
  void drv_f_##N(void* h, PARAM v, void* buf) {                                   \
    auto hh = H(T, h);                                                            \
    finish(*(decltype(hh.promise().yield_value(EXPR))*)buf);                      \
  }
STEP(int_rv, int, std::move(*v), int*)
STEP(int_copy, int, std::as_const(*v), int*)
STEP(int_lv, int, *v, int*)
STEP(int_ref, int, by_ref<int&>{*v}, int*)
STEP(ref_lv, int&, *v, int*)
STEP(ref_ref, int&, by_ref<int&>{*v}, int*)
STEP(own_rv, own, std::move(*v), own*)
STEP(own_ref, own, by_ref<own&>{*v}, own*)
STEP(cpy_copy, cpy, std::as_const(*v), cpy*)
STEP(cpy_lv, cpy, *v, cpy*)
STEP(unit_rv, dd::nothing_t, *v, dd::nothing_t*)
STEP(int_leaf, int, elements_of<generator<int>&&>{std::move(*v)}, generator<int>*)
STEP(int_leaflv, int, elements_of<generator<int>&>{*v}, generator<int>*)
STEP(ref_leaf, int&, elements_of<generator<int&>&&>{std::move(*v)}, generator<int&>*)
STEP(own_leaf, own, elements_of<generator<own>&&>{std::move(*v)}, generator<own>*)
STEP(unit_leaf, dd::nothing_t, elements_of<generator<dd::nothing_t>&&>{std::move(*v)}, generator<dd::nothing_t>*)
void* drv_y_int_rleaf(void* h, generator<int>* v, void* buf) {  // the yielding body uses a memory resource
  auto hh = rh::from_address(h);
  using A = decltype(hh.promise().yield_value(elements_of<generator<int>&&>{std::move(*v)}));
  return suspend(*new (buf) A(hh.promise().yield_value(elements_of<generator<int>&&>{std::move(*v)})), hh);
}
void drv_f_int_rleaf(void* h, generator<int>* v, void* buf) { drv_f_int_leaf(h, v, buf); }
void* drv_y_int_rcopy(void* h, int* v, void* buf) {
  auto hh = rh::from_address(h);
  using A = decltype(hh.promise().yield_value(std::as_const(*v)));
  return suspend(*new (buf) A(hh.promise().yield_value(std::as_const(*v))), hh);
}
void drv_f_int_rcopy(void* h, int* v, void* buf) { drv_f_int_copy(h, v, buf); }
#define OPS(N, T)                                                                                   \
  void* drv_final_##N(void* h) {                                                                    \
    auto hh = H(T, h);                                                                              \
    auto a = hh.promise().final_suspend();                                                          \
    return suspend(a, hh);                                                                          \
  }                                                                                                 \
  void drv_unhandled_##N(void* h) {                                                                 \
    try {                                                                                           \
      ext_effect();                                                                                 \
    } catch (...) {                                                                                 \
      H(T, h).promise().unhandled_exception();                                                      \
    }                                                                                               \
  }                                                                                                 \
  void drv_empty_##N(generator<T>* g) { new (g) generator<T>(); }                                   \
  void drv_dtor_##N(generator<T>* g) { g->~generator(); }                                           \
  void drv_clear_##N(generator<T>* g) { g->clear(); }                                               \
  void* drv_release_##N(generator<T>* g) { return g->release().address(); }                         \
  void* drv_raw_##N(generator<T>* g) { return g->raw_handle().address(); }                          \
  void drv_reset_##N(generator<T>* g, void* h) { g->reset(H(T, h)); }                               \
  void drv_move_##N(generator<T>* d, generator<T>* s) { new (d) generator<T>(std::move(*s)); }      \
  void drv_assign_##N(generator<T>* d, generator<T>* s) { *d = std::move(*s); }                     \
  void drv_swap_##N(generator<T>* d, generator<T>* s) { d->swap(*s); }                              \
  bool drv_isempty_##N(generator<T>* g) { return g->empty(); }                                      \
  void drv_begin_##N(generator<T>* g, generator_iterator<T>* it) { new (it) generator_iterator<T>(g->begin()); } \
  void drv_cur_##N(generator<T>* g, generator_iterator<T>* it) { new (it) generator_iterator<T>(g->cur_iterator()); } \
  bool drv_isend_##N(generator_iterator<T>* it) { return *it == std::default_sentinel; }            \
  void drv_inc_##N(generator_iterator<T>* it) { ++*it; }
OPS(int, int)
OPS(ref, int&)
OPS(own, own)
OPS(cpy, cpy)
OPS(unit, dd::nothing_t)
int* drv_deref_int(generator_iterator<int>* it) { return &(int&)(**it); }
int* drv_deref_ref(generator_iterator<int&>* it) { return &**it; }
own* drv_deref_own(generator_iterator<own>* it) { return std::addressof((own&)(**it)); }
cpy* drv_deref_cpy(generator_iterator<cpy>* it) { return std::addressof((cpy&)(**it)); }
generator<int> three(int k) {
  co_yield ext_val();
  if (k)
    co_yield elements_of(three(k - 1));
}
generator<int&> three_ref(int k) {
  co_yield *ext_ref();
  if (k)
    co_yield elements_of(three_ref(k - 1));
}
generator<cpy> three_cpy(int k) {
  co_yield cpy(ext_val());
  if (k)
    co_yield elements_of(three_cpy(k - 1));
}
generator<own> three_own(int k) {
  co_yield own(ext_val());
  if (k)
    co_yield elements_of(three_own(k - 1));
}
generator<dd::nothing_t> three_unit(int k) {
  co_yield dd::nothing_t{};
  if (k)
    co_yield elements_of(three_unit(k - 1));
}
void drv_three_int(generator<int>* g, int k) { new (g) generator<int>(three(k)); }
void drv_three_ref(generator<int&>* g, int k) { new (g) generator<int&>(three_ref(k)); }
void drv_three_own(generator<own>* g, int k) { new (g) generator<own>(three_own(k)); }
void drv_three_cpy(generator<cpy>* g, int k) { new (g) generator<cpy>(three_cpy(k)); }
void drv_three_unit(generator<dd::nothing_t>* g, int k) { new (g) generator<dd::nothing_t>(three_unit(k)); }
void drv_nop() {}
}
