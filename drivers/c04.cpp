#include "gate.hpp"
#include <ranges>
#include <kelcoro/task.hpp>
#include <kelcoro/job.hpp>
#include <kelcoro/generator.hpp>
#include <kelcoro/channel.hpp>
#include <kelcoro/async_task.hpp>
#include <kelcoro/logical_thread.hpp>
#include <kelcoro/thread_pool.hpp>
using namespace dd;
using mr = std::pmr::memory_resource;
extern "C" {
void ext_ctor(void*) noexcept;
void ext_dtor(void*) noexcept;
}
struct e24 {
  e24() noexcept { ext_ctor(this); }
  ~e24() { ext_dtor(this); }
  void* x[3];
};
struct alignas(64) e64 {
  e64() noexcept { ext_ctor(this); }
  ~e64() { ext_dtor(this); }
  void* x[8];
};
template <typename T>
using fa = noexport::fixed_array<T>;
extern "C" {
#define FA(N, T)                                                                   \
  void drv_fa_ctor_##N(fa<T>* a, size_t n, mr* r) { new (a) fa<T>(n, *r); }          \
  void drv_fa_def_##N(fa<T>* a) { new (a) fa<T>(); }                                \
  void drv_fa_nores_##N(fa<T>* a, size_t n) { new (a) fa<T>(n); }                   \
  void drv_fa_dtor_##N(fa<T>* a) { a->~fixed_array(); }                             \
  void drv_fa_move_##N(fa<T>* a, fa<T>* b) { new (a) fa<T>(std::move(*b)); }        \
  void drv_fa_assign_##N(fa<T>* a, fa<T>* b) { *a = std::move(*b); }                \
  mr* drv_fa_res_##N(const fa<T>* a) { return a->get_resource(); }                  \
  size_t drv_fa_size_##N(const fa<T>* a) { return a->size(); }                      \
  T* drv_fa_data_##N(fa<T>* a) { return a->data(); }                                \
  size_t drv_sizeof_##N() { return sizeof(T); }                                     \
  size_t drv_alignof_##N() { return alignof(T); }
FA(e24, e24)
FA(e64, e64)
mr* drv_pool_resource(thread_pool* p) { return &p->get_resource(); }
// ---------------------------------------------------------------- polymorphic resource
mr* drv_get() { return &pmr::get_default_resource(); }
mr* drv_set(mr* r) { return &pmr::set_default_resource(*r); }
void drv_pass(mr* r) { pmr::pass_resource(*r); }
void drv_poly(pmr::polymorphic_resource* p) { new (p) pmr::polymorphic_resource(); }
void drv_polyarg(pmr::polymorphic_resource* p, mr* r) { new (p) pmr::polymorphic_resource(*r); }
void* drv_alloc(pmr::polymorphic_resource* p, size_t n) { return p->allocate(n); }
void drv_dealloc(pmr::polymorphic_resource* p, void* x, size_t n) { p->deallocate(x, n); }
void* drv_new(size_t n) { return overload_new_delete<pmr::polymorphic_resource>::operator new(n); }
void* drv_newarg(size_t n, mr* r) {
  return overload_new_delete<pmr::polymorphic_resource>::operator new(n, 1, with_resource<pmr::polymorphic_resource>(*r));
}
void drv_del(void* p, size_t n) { overload_new_delete<pmr::polymorphic_resource>::operator delete(p, n); }
void* drv_chnew(size_t n, mr* r) {
  return overload_new_delete<chunk_from<mr>>::operator new(n, 1, with_pmr_resource(*r));
}
void drv_chdel(void* p, size_t n) { overload_new_delete<chunk_from<mr>>::operator delete(p, n); }
}
struct local {
  own o{1};
  alignas(16) char pad[24];
};
template <typename C, typename... A>
C co_task(int a, A...) {
  local l;
  co_return a;
}
template <typename C, typename... A>
C co_gen(int a, A...) {
  local l;
  co_yield a;
}
template <typename C, typename... A>
C co_thr(int a, A...) {
  local l;
  co_return;
}
using wp = with_resource<pmr::polymorphic_resource>;
extern "C" {
#define CO(N, T, P, B)                                                                   \
  void drv_def_##N(P* p) { new (p) P(co_##B<P>(1)); }                                    \
  void drv_arg_##N(P* p, mr* r) { new (p) P(co_##B<P, wp>(1, *r)); }                     \
  void drv_arg2_##N(P* p, mr* r) { new (p) T(co_##B<T, with_pmr_resource>(1, with_resource{*r})); } \
  void drv_dtor_##N(P* p) { p->~P(); }
using t_task = task<int>;
using p_task = pmr::task<int>;
using t_gen = generator<int>;
using p_gen = pmr::generator<int>;
using t_chan = channel<int>;
using p_chan = pmr::channel<int>;
using t_async = async_task<int>;
using p_async = pmr::async_task<int>;
using t_thr = logical_thread;
using p_thr = logical_thread_r<pmr::polymorphic_resource>;
CO(task, t_task, p_task, task)
CO(gen, t_gen, p_gen, gen)
CO(chan, t_chan, p_chan, gen)
CO(async, t_async, p_async, task)
CO(thr, t_thr, p_thr, thr)
void drv_nop() {}
}
