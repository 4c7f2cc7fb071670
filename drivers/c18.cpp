#include <kelcoro/generator.hpp>
#define GEN dd::generator
#define GEN_R dd::generator_r
#define EXTRA_OPS
#define CONSUME(g, n)                   \
  for (int k = n; k > 0; --k) {         \
    auto it = g.begin();                \
    if (it == g.end()) {                \
      ext_preend(id);                   \
      break;                            \
    }                                   \
    ext_pre(id, (int)*it);              \
  }
#include "gens.hpp"
dd::generator<dd::nothing_t> units(int id) {
  live l{id};
  for (;;) switch (ext_op(id)) {
      case 1: co_yield dd::nothing_t{}; ext_ran(id); break;
      case 4: ext_throw(id); break;
      case 5: co_yield dd::elements_of(units(ext_arg(id))); ext_ran(id); break;
      default: co_return;
    }
}
using dd::generator;
using dd::generator_iterator;
extern "C" {
#define OPS(N, T)                                                                                   \
  void drv_empty_##N(generator<T>* g) { new (g) generator<T>(); }                                   \
  void drv_dtor_##N(generator<T>* g) { g->~generator(); }                                           \
  void drv_clear_##N(generator<T>* g) { g->clear(); }                                               \
  void* drv_release_##N(generator<T>* g) { return g->release().address(); }                         \
  void* drv_raw_##N(generator<T>* g) { return g->raw_handle().address(); }                          \
  void drv_reset_##N(generator<T>* g, void* h) { g->reset(generator<T>::handle_type::from_address(h)); } \
  void drv_move_##N(generator<T>* d, generator<T>* s) { new (d) generator<T>(std::move(*s)); }      \
  void drv_assign_##N(generator<T>* d, generator<T>* s) { *d = std::move(*s); }                     \
  void drv_swap_##N(generator<T>* d, generator<T>* s) { d->swap(*s); }                              \
  void drv_fswap_##N(generator<T>* d, generator<T>* s) { swap(*d, *s); }                            \
  bool drv_isempty_##N(generator<T>* g) { return g->empty() && !*g && *g == generator<T>{}; }       \
  bool drv_nonempty_##N(generator<T>* g) { return !g->empty() && (bool)*g && *g != generator<T>{} && *g == *g; } \
  void drv_begin_##N(generator<T>* g, generator_iterator<T>* it) { new (it) generator_iterator<T>(g->begin()); } \
  void drv_cur_##N(generator<T>* g, generator_iterator<T>* it) { new (it) generator_iterator<T>(g->cur_iterator()); } \
  bool drv_isend_##N(generator_iterator<T>* it) { return *it == std::default_sentinel && !(*it != std::default_sentinel); } \
  void drv_inc_##N(generator_iterator<T>* it) { ++*it; }                                            \
  void drv_postinc_##N(generator_iterator<T>* it) { (*it)++; }                                      \
  bool drv_owner_##N(generator_iterator<T>* it, generator<T>* g) { return &it->owner() == g && it->equivalent(g->cur_iterator()); }
#define DEREF(N, T)                                                                                 \
  void* drv_deref_##N(generator_iterator<T>* it) {                                                  \
    auto&& r = **it;                                                                                \
    auto o = generator_iterator<T>(*it).out();                                                      \
    return std::addressof(r) == it->operator->() && std::addressof(*o) == std::addressof(r) ? (void*)std::addressof(r) : nullptr;                               \
  }
OPS(int, int)
OPS(ref, int&)
OPS(own, own)
OPS(unit, dd::nothing_t)
DEREF(int, int)
DEREF(ref, int&)
DEREF(own, own)
void* drv_deref_unit(generator_iterator<dd::nothing_t>* it) {
  dd::nothing_t x = **it;
  return ext_unit();
}
void drv_start_int(generator<int>* g, int id) { new (g) generator<int>(body(id)); }
void drv_startr_int(generator<int>* g, int id) { new (g) generator<int>(rbody(id)); }
void drv_starts_int(generator<int>* g, int id) { new (g) generator<int>(sbody(id, stateful{})); }
void drv_start_ref(generator<int&>* g, int id) { new (g) generator<int&>(refs(id)); }
void drv_start_own(generator<own>* g, int id) { new (g) generator<own>(owns(id)); }
void drv_start_unit(generator<dd::nothing_t>* g, int id) { new (g) generator<dd::nothing_t>(units(id)); }
int* drv_ownp(own* o) { return o->p; }
void drv_nop() {}
}
