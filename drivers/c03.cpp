#include "gate.hpp"
#include <ranges>
#include <kelcoro/task.hpp>
#include <kelcoro/job.hpp>
#include <kelcoro/generator.hpp>
#include <kelcoro/channel.hpp>
#include <kelcoro/async_task.hpp>
#include <kelcoro/logical_thread.hpp>
using namespace dd;
extern "C" {
void* ext_alloc(long id, size_t n);  // may throw
void ext_dealloc(long id, void* p, size_t n) noexcept;
void ext_after(long id) noexcept;
void ext_made(const void*) noexcept;
void ext_died(const void*) noexcept;
long ext_id() noexcept;
void ext_copy();  // may throw
}
// no state: one resource for all
struct r_empty {
  static void* allocate(size_t n) { return ext_alloc(0, n); }
  static void deallocate(void* p, size_t n) noexcept { ext_dealloc(0, p, n); }
};
#define BODY NO_ADDR                                           \
  void* allocate(size_t n) { return ext_alloc((long)id, n); } \
  void deallocate(void* p, size_t n) noexcept {                \
    ext_dealloc((long)id, p, n);                               \
    ext_after((long)id);                                       \
  }
struct r_triv {
  long id;
  BODY
};
struct r_byte {
  unsigned char id;
  BODY
};
struct r_odd {  // size 12, alignment 4
  int id;
  int pad[2];
  BODY
};
struct alignas(16) r_al {
  long id;
  BODY
};
// identity of its own: lost by a move
struct r_own {
  long id;
  explicit r_own(long i) noexcept : id(i) { ext_made(this); }
  r_own(r_own&& o) noexcept : id(std::exchange(o.id, -1)) { ext_made(this); }
  r_own(const r_own& o) noexcept : id(o.id) { ext_made(this); }
  ~r_own() { ext_died(this); }
  BODY
};
struct alignas(16) r_ownal : r_own {
  long more = 0;
  using r_own::r_own;
};
struct r_def : r_own {  // default constructible
  r_def() noexcept : r_own(ext_id()) {}
};
struct big {  // referenced resource
  long id;
  BODY
};
using c_big = chunk_from<big>;
using c_empty = chunk_from<r_empty>;
extern "C" {
#define OPS(N, R)                                                                     \
  void* drv_newarg_##N(size_t n, int a, with_resource<R>* r) {                        \
    return overload_new_delete<R>::operator new(n, a, *r);                            \
  }                                                                                   \
  void* drv_newconst_##N(size_t n, const int* a, const with_resource<R>* r) {         \
    return overload_new_delete<R>::operator new(n, a, 5, *r);                         \
  }                                                                                   \
  void drv_del_##N(void* p, size_t n) { overload_new_delete<R>::operator delete(p, n); } \
  size_t drv_size_##N() { return std::is_empty_v<R> ? 0 : sizeof(R); }                \
  size_t drv_align_##N() { return std::is_empty_v<R> ? 1 : alignof(R); }
#define DEF(N, R) \
  void* drv_new_##N(size_t n) { return overload_new_delete<R>::operator new(n); }
OPS(empty, r_empty)
OPS(triv, r_triv)
OPS(byte, r_byte)
OPS(odd, r_odd)
OPS(al, r_al)
OPS(own, r_own)
OPS(ownal, r_ownal)
OPS(def, r_def)
OPS(big, c_big)
OPS(cempty, c_empty)
DEF(empty, r_empty)
DEF(def, r_def)
DEF(cempty, c_empty)
void drv_mk_triv(with_resource<r_triv>* r, long id) { new (r) with_resource<r_triv>{r_triv{id}}; }
void drv_mk_own(with_resource<r_own>* r, long id) { new (r) with_resource<r_own>(id); }
void drv_mk_ownal(with_resource<r_ownal>* r, long id) { new (r) with_resource<r_ownal>(id); }
void drv_mk_byte(with_resource<r_byte>* r, long id) { new (r) with_resource<r_byte>{r_byte{(unsigned char)id}}; }
void drv_mk_odd(with_resource<r_odd>* r, long id) { new (r) with_resource<r_odd>{r_odd{(int)id, {}}}; }
void drv_mk_al(with_resource<r_al>* r, long id) { new (r) with_resource<r_al>{r_al{id}}; }
void drv_mk_def(with_resource<r_def>* r, long id) { new (r) with_resource<r_def>(); }
void drv_mk_big(with_resource<c_big>* r, big* b) { new (r) with_resource<c_big>(*b); }
void drv_mk_empty(with_resource<r_empty>* r, long) { new (r) with_resource<r_empty>(); }
void drv_mk_cempty(with_resource<c_empty>* r, r_empty* e) { new (r) with_resource<c_empty>(*e); }
void drv_rm_own(with_resource<r_own>* r) { r->~with_resource(); }
void drv_rm_ownal(with_resource<r_ownal>* r) { r->~with_resource(); }
void drv_rm_def(with_resource<r_def>* r) { r->~with_resource(); }
}
// ---------------------------------------------------------------- real coroutines
struct local {  // something in the frame to be destroyed; bigger than one word
  own o{1};
  alignas(16) char pad[24];
};
struct maythrow {
  maythrow() noexcept {}
  maythrow(const maythrow&) { ext_copy(); }
  ~maythrow() {}
};
#define BODIES(N, ARG)                                      \
  task<int> task_##N(int a, ARG) {                          \
    local l;                                                \
    co_return a + (int)(l.pad[0] = 1);                      \
  }                                                         \
  generator<int> gen_##N(int a, ARG) {                      \
    local l;                                                \
    co_yield a;                                             \
  }                                                         \
  channel<int> chan_##N(int a, ARG) {                       \
    local l;                                                \
    co_yield a;                                             \
  }                                                         \
  job job_##N(void** h, ARG) {                              \
    local l;                                                \
    if (h)                                                  \
      co_await gate{h};                                     \
  }                                                         \
  async_task<int> async_##N(void** h, ARG) {                \
    local l;                                                \
    if (h)                                                  \
      co_await gate{h};                                     \
    co_return ext_val();                                    \
  }                                                         \
  logical_thread thr_##N(void** h, ARG) {                   \
    local l;                                                \
    if ((co_await this_coro::stop_token).stop_requested())  \
      co_return;                                            \
    if (h)                                                  \
      co_await gate{h};                                     \
  }                                                         \
  task<int> cp_##N(maythrow m, ARG) { co_return 1; }
BODIES(triv, with_resource<r_triv>)
BODIES(own, with_resource<r_own>)
BODIES(ownal, const with_resource<r_ownal>&)
BODIES(big, with_resource<c_big>)
BODIES(empty, with_resource<r_empty>&&)
BODIES(odd, with_resource<r_odd>&)
// resourced<> with a default constructed resource
template <typename T>
using rd = resourced<T, r_def>;
rd<task<int>> task_def(int a) {
  local l;
  co_return a + (int)(l.pad[0] = 1);
}
rd<generator<int>> gen_def(int a) {
  local l;
  co_yield a;
}
rd<channel<int>> chan_def(int a) {
  local l;
  co_yield a;
}
rd<job> job_def(void** h) {
  local l;
  if (h)
    co_await gate{h};
}
rd<async_task<int>> async_def(void** h) {
  local l;
  if (h)
    co_await gate{h};
  co_return ext_val();
}
rd<logical_thread> thr_def(void** h) {
  local l;
  if ((co_await this_coro::stop_token).stop_requested())
    co_return;
  if (h)
    co_await gate{h};
}
rd<task<int>> cp_def(maythrow m) { co_return 1; }
co observe(task<int>* t) {
  int x = co_await *t;
  ext_got(x);
}
co observe_ch(channel<int>* c) {
  co_foreach(int x, *c) ext_got(x);
}
extern "C" {
#define COROS(N, R, A, PRE)                                                                         \
  void drv_task_##N(task<int>* t, int a, R* r) { new (t) task<int>(task_##N(a PRE A)); }              \
  void drv_cp_##N(task<int>* t, int, R* r) {                                                        \
    maythrow m;                                                                                     \
    new (t) task<int>(cp_##N(m PRE A));                                                              \
  }                                                                                                 \
  void drv_gen_##N(generator<int>* t, int a, R* r) { new (t) generator<int>(gen_##N(a PRE A)); }      \
  void drv_chan_##N(channel<int>* t, int a, R* r) { new (t) channel<int>(chan_##N(a PRE A)); }        \
  void drv_job_##N(void*, void** h, R* r) { job_##N(h PRE A); }                                       \
  void drv_async_##N(async_task<int>* t, void** h, R* r) { new (t) async_task<int>(async_##N(h PRE A)); } \
  void drv_thr_##N(logical_thread* t, void** h, R* r) { new (t) logical_thread(thr_##N(h PRE A)); }
#define COMMA ,
#define NONE
COROS(triv, with_resource<r_triv>, *r, COMMA)
COROS(own, with_resource<r_own>, std::move(*r), COMMA)
COROS(ownal, with_resource<r_ownal>, *r, COMMA)
COROS(big, with_resource<c_big>, *r, COMMA)
COROS(empty, with_resource<r_empty>, std::move(*r), COMMA)
COROS(odd, with_resource<r_odd>, *r, COMMA)
COROS(def, void, , NONE)
void drv_task_dtor(task<int>* t) { t->~task(); }
void drv_gen_dtor(generator<int>* t) { t->~generator(); }
void drv_chan_dtor(channel<int>* t) { t->~channel(); }
void drv_async_dtor(async_task<int>* t) { t->~async_task(); }
void drv_async_detach(async_task<int>* t) { t->detach(); }
void drv_thr_dtor(logical_thread* t) { t->~logical_thread(); }
void drv_thr_detach(logical_thread* t) { t->detach(); }
void drv_gen_drain(generator<int>* t) {
  for (int x : *t)
    ext_got(x);
}
void drv_observe(task<int>* t, void** h) { *h = observe(t).h.address(); }
void drv_observe_ch(channel<int>* t, void** h) { *h = observe_ch(t).h.address(); }
void drv_resume(void* h) { std::coroutine_handle<>::from_address(h).resume(); }
void drv_destroy(void* h) { std::coroutine_handle<>::from_address(h).destroy(); }
void drv_nop() {}
}
