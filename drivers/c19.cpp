// channels: scripted bodies (gens.hpp) and scripted consumers
#include <kelcoro/channel.hpp>
#define GEN dd::channel
#define GEN_R dd::channel_r
#define EXTRA_OPS case 15: co_await gate{ext_gate(id)}; break;
#define CONSUME(g, n)                   \
  for (int k = n; k > 0; --k) {         \
    auto it = co_await g.begin();       \
    if (it == g.end()) {                \
      ext_preend(id);                   \
      break;                            \
    }                                   \
    ext_pre(id, (int)*it);              \
  }
#include "gens.hpp"
using dd::channel;
using dd::channel_iterator;
extern "C" {
int ext_next(int c) noexcept;              // what consumer `c` does next
void* ext_chan(int c) noexcept;            // with which channel
int ext_slot(int c) noexcept;              // with which of its iterators
void** ext_park(int c) noexcept;           // where it leaves its handle between two steps
void ext_here(int c, const void*) noexcept;  // it gets an element
void ext_end(int c) noexcept;              // or the end
void ext_dropped(int c) noexcept;          // an iterator is gone
void ext_failed(int c) noexcept;           // an exception arrives
void ext_none(int c) noexcept;             // take_exception() gives nothing
}
template <typename T>
co consumer(int c) {
  using it = channel_iterator<T>;
  alignas(it) char buf[2][sizeof(it)];
  for (;;) {
    co_await gate{ext_park(c)};
    int op = ext_next(c), s = op ? ext_slot(c) : 0;
    auto* g = op ? (channel<T>*)ext_chan(c) : nullptr;
    it* i = reinterpret_cast<it*>(buf[s]);
    switch (op) {
      case 1: new (i) it(co_await g->begin()); goto report;
      case 2: co_await ++*i;
      report:
        if (*i == g->end())
          ext_end(c);
        else
          ext_here(c, i->operator->());
        break;
      case 3: {
        std::add_pointer_t<T> p = co_await g->next();
        if (p)
          ext_here(c, p);
        else
          ext_end(c);
        break;
      }
      case 4:
        try {
          i->~channel_iterator();
          ext_dropped(c);
        } catch (...) {
          ext_failed(c);
        }
        break;
      case 5: {
        std::exception_ptr e = g->take_exception();
        if (!e)
          ext_none(c);
        else
          try {
            std::rethrow_exception(std::move(e));
          } catch (...) {
            ext_failed(c);
          }
        break;
      }
      case 6:
        try {
          co_foreach(auto&& x, *g) {
            ext_here(c, std::addressof(x));
            co_await gate{ext_park(c)};
          }
          ext_end(c);
        } catch (...) {
          ext_failed(c);
        }
        break;
      case 7: new (i) it(*g); break;
      default: co_return;
    }
  }
}
extern "C" {
#define OPS(N, T)                                                                                   \
  void drv_empty_##N(channel<T>* g) { new (g) channel<T>(); }                                       \
  void drv_dtor_##N(channel<T>* g) { g->~channel(); }                                               \
  void drv_clear_##N(channel<T>* g) { g->clear(); }                                                 \
  void* drv_release_##N(channel<T>* g) { return g->release().address(); }                           \
  void* drv_raw_##N(channel<T>* g) { return g->raw_handle().address(); }                            \
  void drv_reset_##N(channel<T>* g, void* h) { g->reset(channel<T>::handle_type::from_address(h)); } \
  void drv_move_##N(channel<T>* d, channel<T>* s) { new (d) channel<T>(std::move(*s)); }            \
  void drv_assign_##N(channel<T>* d, channel<T>* s) { *d = std::move(*s); }                         \
  void drv_swap_##N(channel<T>* d, channel<T>* s) { d->swap(*s); }                                  \
  void drv_fswap_##N(channel<T>* d, channel<T>* s) { swap(*d, *s); }                                \
  bool drv_isempty_##N(channel<T>* g) { return g->empty() && !*g && *g == channel<T>{}; }           \
  bool drv_nonempty_##N(channel<T>* g) { return !g->empty() && (bool)*g && *g != channel<T>{} && *g == *g; } \
  void* drv_at_##N(channel<T>* g) {                                                                 \
    channel_iterator<T> it(*g), e(*g);                                                              \
    if (&it.owner() != g || !it.equivalent(e)) return (void*)1;                                     \
    return it == g->end() ? nullptr : (void*)it.operator->();                                   \
  }                                                                                                 \
  void* drv_consumer_##N(int c) { return consumer<T>(c).h.address(); }
OPS(int, int)
OPS(ref, int&)
OPS(own, own)
void drv_resume(void* h) { std::coroutine_handle<>::from_address(h).resume(); }
bool drv_destroy(void* h) {
  auto c = std::coroutine_handle<>::from_address(h);
  bool d = c.done();
  c.destroy();
  return d;
}
void drv_start_int(channel<int>* g, int id) { new (g) channel<int>(body(id)); }
void drv_startr_int(channel<int>* g, int id) { new (g) channel<int>(rbody(id)); }
void drv_starts_int(channel<int>* g, int id) { new (g) channel<int>(sbody(id, stateful{})); }
void drv_start_ref(channel<int&>* g, int id) { new (g) channel<int&>(refs(id)); }
void drv_start_own(channel<own>* g, int id) { new (g) channel<own>(owns(id)); }
int* drv_ownp(own* o) { return o->p; }
void drv_nop() {}
}
