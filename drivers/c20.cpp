#include "gate.hpp"
#include <kelcoro/inplace_generator.hpp>
using namespace dd;
extern "C" {
int ext_op() noexcept;      // what the body does next
void ext_saw(int) noexcept; // what the body finds in its variable after a by-reference yield
void ext_addr(void*) noexcept;
}
struct live {  // a body local
  own o{1};
};
inplace_generator<int> body_int() {
  live l;
  for (;;) switch (ext_op()) {
      case 1: co_yield ext_val(); break;
      case 2: {
        const int x = ext_val();
        ext_addr((void*)std::addressof(x));
        co_yield x;
        ext_saw(x);
        break;
      }
      case 3: {
        int x = ext_val();
        ext_addr((void*)std::addressof(x));
        co_yield by_ref{x};
        ext_saw(x);
        break;
      }
      default: ext_effect(); co_return;
    }
}
inplace_generator<int&> body_ref() {
  live l;
  for (;;) switch (ext_op()) {
      case 1: {
        int x = ext_val();
        ext_addr((void*)std::addressof(x));
        co_yield x;
        ext_saw(x);
        break;
      }
      case 2: {
        int x = ext_val();
        ext_addr((void*)std::addressof(x));
        co_yield by_ref{x};
        ext_saw(x);
        break;
      }
      default: ext_effect(); co_return;
    }
}
inplace_generator<own> body_own() {
  live l;
  for (;;) switch (ext_op()) {
      case 1: co_yield own(ext_val()); break;
      case 2: {
        own x(ext_val());
        ext_addr((void*)std::addressof(x));
        co_yield by_ref{x};
        ext_saw(x.p ? *x.p : -1);
        break;
      }
      case 3: {
        own x(ext_val());
        ext_addr((void*)std::addressof(x));
        co_yield std::move(x);
        ext_saw(x.p ? *x.p : -1);
        break;
      }
      default: ext_effect(); co_return;
    }
}
inplace_generator<cpy> body_cpy() {
  live l;
  for (;;) switch (ext_op()) {
      case 1: co_yield cpy(ext_val()); break;
      case 2: {
        const cpy x(ext_val());
        ext_addr((void*)std::addressof(x));
        co_yield x;
        ext_saw(x.p ? *x.p : -1);
        break;
      }
      case 3: {
        cpy x(ext_val());
        ext_addr((void*)std::addressof(x));
        co_yield by_ref{x};
        ext_saw(x.p ? *x.p : -1);
        break;
      }
      case 4: {
        cpy x(ext_val());
        ext_addr((void*)std::addressof(x));
        co_yield x;
        ext_saw(x.p ? *x.p : -1);
        break;
      }
      default: ext_effect(); co_return;
    }
}
extern "C" {
#define OPS(N, T)                                                                                \
  void drv_start_##N(inplace_generator<T>* g) { new (g) inplace_generator<T>(body_##N()); }       \
  void drv_dtor_##N(inplace_generator<T>* g) { g->~inplace_generator(); }                        \
  bool drv_isempty_##N(inplace_generator<T>* g) { return g->empty() && !*g && g->begin() == g->end(); }        \
  bool drv_nonempty_##N(inplace_generator<T>* g) { return !g->empty() && (bool)*g && g->begin() != g->end(); } \
  void drv_move_##N(inplace_generator<T>* d, inplace_generator<T>* s) { new (d) inplace_generator<T>(std::move(*s)); } \
  void drv_assign_##N(inplace_generator<T>* d, inplace_generator<T>* s) { *d = std::move(*s); }  \
  void drv_swap_##N(inplace_generator<T>* d, inplace_generator<T>* s) { d->swap(*s); }           \
  void drv_fswap_##N(inplace_generator<T>* d, inplace_generator<T>* s) { swap(*d, *s); }         \
  void* drv_deref_##N(inplace_generator<T>* g) {                                                 \
    auto it = g->begin();                                                                        \
    auto&& r = *it;                                                                              \
    return std::addressof(r) == it.operator->() ? (void*)std::addressof(r) : nullptr;                                          \
  }                                                                                              \
  void drv_next_##N(inplace_generator<T>* g) {                                                   \
    auto it = g->begin();                                                                        \
    ++it;                                                                                        \
  }                                                                                              \
  void drv_postinc_##N(inplace_generator<T>* g) {                                                \
    auto it = g->begin();                                                                        \
    it++;                                                                                        \
  }
OPS(int, int)
OPS(ref, int&)
OPS(own, own)
OPS(cpy, cpy)
void drv_drain(inplace_generator<int>* g) {
  for (int x : *g)
    ext_got(x);
}
int* drv_ownp(own* o) { return o->p; }
void drv_take(own* o) { own t(std::move(*o)); }
void drv_nop() {}
}
