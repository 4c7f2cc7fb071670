// FLAGS: -DNDEBUG
#include "gate.hpp"
#include <string>
#include <kelcoro/task.hpp>
#include <kelcoro/async_task.hpp>
#include <kelcoro/noexport/expected.hpp>
using namespace dd;
extern "C" {
int ext_op() noexcept;
void ext_made(void*);  // may throw
void ext_died(void*) noexcept;
void ext_from(const void*) noexcept;
void ext_place(void*) noexcept;
void ext_saw(int) noexcept;
void ext_throw();
}
// has an identity; reports its constructions and destructions
struct obj {
  int v;
  explicit obj(int x) : v(x) { ext_made(this); }
  obj(obj&& o) noexcept : v((ext_from(std::addressof(o)), std::exchange(o.v, -1))) { ext_made(this); }
  obj(const obj& o) : v((ext_from(std::addressof(o)), o.v)) { ext_made(this); }
  obj& operator=(const obj&) = delete;
  no_addr operator&() const noexcept { return {}; }
  ~obj() { ext_died(this); }
};
// the same, default constructible
struct dobj : obj {
  dobj() : obj(5) {}
  using obj::obj;
};
// construction may throw
struct tobj : obj {
  tobj(int x) : obj(x) {}
  tobj(tobj&& o) noexcept(false) : obj((obj&&)o) {}
};
struct err : obj {
  using obj::obj;
};
// trivially destructible, default constructible
struct tri {
  int v;
  tri() : v(5) { ext_made(this); }
  explicit tri(int x) : v(x) { ext_made(this); }
  tri(tri&& o) noexcept : v(std::exchange(o.v, -1)) { ext_made(this); }
  tri(const tri& o) : v(o.v) { ext_made(this); }
  no_addr operator&() const noexcept { return {}; }
};
// trivially destructible, not default constructible
struct ndt {
  int v;
  explicit ndt(int x) : v(x) { ext_made(this); }
  ndt(ndt&& o) noexcept : v(std::exchange(o.v, -1)) { ext_made(this); }
  ndt(const ndt& o) : v(o.v) { ext_made(this); }
  no_addr operator&() const noexcept { return {}; }
};
struct two {  // two words, aggregate
  int a, b;
};
template <typename T>
int get_v(T& x) {
  if constexpr (requires { x.v; })
    return x.v;
  else
    return x;
}
template <typename T>
void set_v(T& x, int v) {
  if constexpr (requires { x.v; })
    x.v = v;
  else
    x = v;
}
// promise forms: run the body's operations in the order asked for
template <typename C, typename T>
C body(void** h) {
  for (;;)
    switch (ext_op()) {
      case 1: co_return T(ext_val());
      case 2: {
        T x(ext_val());
        co_return x;
      }
      case 3: {
        const T x(ext_val());
        co_return x;
      }
      case 4: co_return rvo;
      case 5: ext_throw(); break;
      case 6:
        if constexpr (std::is_default_constructible_v<T> && requires(typename C::promise_type p) { p.await_transform(this_coro::return_place); }) {
          T& p = co_await this_coro::return_place;
          ext_place((void*)std::addressof(p));
          set_v(p, ext_val());
        }
        break;
      case 7:
        if constexpr (requires(typename C::promise_type p) { p.self_handle(); }) {
          auto hh = co_await this_coro::handle;
          T& p = hh.promise().return_place(ext_val());
          ext_place((void*)std::addressof(p));
        }
        break;
      case 8: co_await gate{h}; break;
    }
}
template <typename C, typename T>
C rbody(void** h) {
  for (;;)
    switch (ext_op()) {
      case 1: co_return *(T*)ext_ref();
      case 4: co_return rvo;
      case 5: ext_throw(); break;
      case 6:
        if constexpr (requires(typename C::promise_type p) { p.await_transform(this_coro::return_place); }) {
          T*& p = co_await this_coro::return_place;
          ext_place((void*)std::addressof(p));
          p = (T*)ext_ref();
        }
        break;
      case 7:
        if constexpr (requires(typename C::promise_type p) { p.self_handle(); }) {
          auto hh = co_await this_coro::handle;
          T*& p = hh.promise().return_place((T*)ext_ref());
          ext_place((void*)std::addressof(p));
        }
        break;
      case 8: co_await gate{h}; break;
    }
}
template <typename C>
C vbody(void** h) {
  for (;;)
    switch (ext_op()) {
      case 1: co_return;
      case 5: ext_throw(); break;
      case 8: co_await gate{h}; break;
      default: co_return;
    }
}
// co_returns through an implicit conversion into the result type
task<tobj> cbody(void**) {
  for (;;)
    switch (ext_op()) {
      case 1: co_return ext_val();
      case 5: ext_throw(); break;
      default: co_return rvo;
    }
}
template <typename R>
void rep(R&& r) {
  ext_from(std::addressof(r));
  ext_place((void*)std::addressof(r));
  ext_got(get_v(r));
}
// awaits the task: as a reference (1), as a value (2), twice (3), not the result (4)
template <typename T>
co consume(task<T> t) {
  for (;;) try {
      switch (ext_op()) {
        case 1:
          if constexpr (std::is_void_v<T>) {
            co_await t;
            ext_gotvoid();
          } else {
            auto&& r = co_await t;
            rep(r);
          }
          break;
        case 2:
          if constexpr (std::is_void_v<T> || std::is_reference_v<T>)
            ;
          else {
            T x = co_await t;
            ext_got(get_v(x));
          }
          break;
        case 4: co_await t.wait(); break;
        default: co_return;
      }
    } catch (...) {
      ext_caught();
    }
}
template <typename T, typename C>
void take(C& t) {
  try {
    if constexpr (std::is_void_v<T>) {
      t.get();
      ext_gotvoid();
    } else if constexpr (std::is_reference_v<T>) {
      auto& r = t.get();
      rep(r);
    } else {
      T x = t.get();
      ext_got(get_v(x));
    }
  } catch (...) {
    ext_caught();
  }
}
extern "C" {
#define OPS(N, T, BT, BA)                                                                      \
  void drv_new_##N(task<T>* t, void** h) { new (t) task<T>(BT(h)); }                           \
  void drv_dtor_##N(task<T>* t) { t->~task(); }                                                \
  void* drv_consume_##N(task<T>* t) { auto c = consume(std::move(*t)); c.h.resume(); return c.h.address(); }                                 \
  void drv_get_##N(task<T>* t) { take<T>(*t); }                                                \
  void drv_detach_##N(task<T>* t) { t->start_and_detach(); }                                   \
  void drv_adopt_##N(task<T>* t, void* h) { new (t) task<T>(task<T>::handle_type::from_address(h)); } \
  void* drv_stop_##N(task<T>* t) { return t->start_and_detach(true).address(); }               \
  void drv_anew_##N(async_task<T>* t, void** h) { new (t) async_task<T>(BA(h)); }              \
  void drv_adtor_##N(async_task<T>* t) { t->~async_task(); }                                   \
  void drv_aget_##N(async_task<T>* t) { take<T>(*t); }                                         \
  void drv_adetach_##N(async_task<T>* t) { t->detach(); }
#define VAL(N) OPS(N, N, (body<task<N>, N>), (body<async_task<N>, N>))
VAL(obj)
VAL(dobj)
VAL(tri)
VAL(ndt)
VAL(int)
#define CM ,
OPS(ref, obj&, (rbody<task<obj&>, obj>), (rbody<async_task<obj&>, obj>))
OPS(iref, int&, (rbody<task<int&>, int>), (rbody<async_task<int&>, int>))
OPS(cref, const int&, (rbody<task<const int&>, const int>), (rbody<async_task<const int&>, const int>))
OPS(void, void, (vbody<task<void>>), (vbody<async_task<void>>))
void drv_new_tobj(task<tobj>* t, void** h) { new (t) task<tobj>(cbody(h)); }
void drv_dtor_tobj(task<tobj>* t) { t->~task(); }
void* drv_consume_tobj(task<tobj>* t) { auto c = consume(std::move(*t)); c.h.resume(); return c.h.address(); }
void drv_get_tobj(task<tobj>* t) { take<tobj>(*t); }
// the storage itself
#define BLOCK(N, T)                                                              \
  void* drv_bnew_##N(return_block<T>* b) { return new (b) return_block<T>(); }   \
  void drv_bdtor_##N(return_block<T>* b) { b->~return_block(); }                 \
  void drv_bval_##N(return_block<T>* b, int v) { b->return_value(T(v)); }        \
  void drv_bcopy_##N(return_block<T>* b, const T* v) { b->return_value(*v); }    \
  void drv_bmove_##N(return_block<T>* b, T* v) { b->return_value(std::move(*v)); } \
  void* drv_bplace_##N(return_block<T>* b, int v) { return (void*)std::addressof(b->return_place(v)); } \
  void drv_brvo_##N(return_block<T>* b) { b->return_value(rvo); }                \
  void* drv_bres_##N(return_block<T>* b) {                                       \
    T&& r = b->result();                                                         \
    return std::addressof(r);                                                                   \
  }                                                                              \
  int drv_btake_##N(return_block<T>* b) {                                        \
    T x = b->result();                                                           \
    return get_v(x);                                                             \
  }                                                                              \
  void drv_mk_##N(T* p, int v) { new (p) T(v); }                                 \
  void drv_rm_##N(T* p) { p->~T(); }
BLOCK(obj, obj)
BLOCK(dobj, dobj)
BLOCK(tri, tri)
BLOCK(ndt, ndt)
using Int = int;
void* drv_bnew_int(return_block<int>* b) { return new (b) return_block<int>(); }
void drv_bdtor_int(return_block<int>* b) { b->~return_block(); }
void drv_bval_int(return_block<int>* b, int v) { b->return_value(std::move(v)); }
void drv_bcopy_int(return_block<int>* b, const int* v) { b->return_value(*v); }
void drv_bmove_int(return_block<int>* b, int* v) { b->return_value(std::move(*v)); }
void* drv_bplace_int(return_block<int>* b, int v) { return (void*)std::addressof(b->return_place(v)); }
void drv_brvo_int(return_block<int>* b) { b->return_value(rvo); }
void* drv_bres_int(return_block<int>* b) { int&& r = b->result(); return std::addressof(r); }
int drv_btake_int(return_block<int>* b) { return b->result(); }
void drv_mk_int(int* p, int v) { *p = v; }
void drv_rm_int(int*) {}
void drv_bnew_ref(return_block<obj&>* b) { new (b) return_block<obj&>(); }
void drv_bval_ref(return_block<obj&>* b, obj* v) { b->return_value(*v); }
void* drv_bplace_ref(return_block<obj&>* b, obj* v) { return (void*)std::addressof(b->return_place(v)); }
void drv_brvo_ref(return_block<obj&>* b) { b->return_value(rvo); }
void* drv_bres_ref(return_block<obj&>* b) { return std::addressof(b->result()); }
void drv_bdtor_ref(return_block<obj&>* b) { b->~return_block(); }
void drv_bthrow(return_block<tobj>* b, int v) { b->return_value(v); }
void drv_bnew_tobj(return_block<tobj>* b) { new (b) return_block<tobj>(); }
void drv_bdtor_tobj(return_block<tobj>* b) { b->~return_block(); }
void* drv_bres_tobj(return_block<tobj>* b) { tobj&& r = b->result(); return std::addressof(r); }
// expected
#define EXP(N, T)                                                                                      \
  void drv_eval_##N(expected<T, err>* e, int v) { new (e) expected<T, err>(T(v)); }                    \
  void drv_eerr_##N(expected<T, err>* e, int v) { new (e) expected<T, err>(unexpected(err(v))); }       \
  void drv_emove_##N(expected<T, err>* d, expected<T, err>* e) { new (d) expected<T, err>(std::move(*e)); } \
  void drv_edtor_##N(expected<T, err>* e) { e->~expected(); }                                          \
  bool drv_ehas_##N(const expected<T, err>* e) { return e->has_value() && (bool)*e; }                  \
  bool drv_eno_##N(const expected<T, err>* e) { return !e->has_value() && !(bool)*e; }                 \
  void* drv_ep_##N(expected<T, err>* e) { return std::addressof(**e) == std::addressof(*std::as_const(*e)) ? std::addressof(**e) : nullptr; }       \
  void* drv_ee_##N(expected<T, err>* e) { return std::addressof(e->error()) == std::addressof(std::as_const(*e).error()) ? std::addressof(e->error()) : nullptr; }
EXP(obj, obj)
EXP(tri, tri)
EXP(int, int)
void drv_eval_void(expected<void, err>* e, int) { new (e) expected<void, err>(); }
void drv_eerr_void(expected<void, err>* e, int v) { new (e) expected<void, err>(unexpected(err(v))); }
void drv_emove_void(expected<void, err>* d, expected<void, err>* e) { new (d) expected<void, err>(std::move(*e)); }
void drv_edtor_void(expected<void, err>* e) { e->~expected(); }
bool drv_ehas_void(const expected<void, err>* e) { return e->has_value() && (bool)*e; }
bool drv_eno_void(const expected<void, err>* e) { return !e->has_value() && !(bool)*e; }
void* drv_ee_void(expected<void, err>* e) { return std::addressof(e->error()) == std::addressof(std::as_const(*e).error()) ? std::addressof(e->error()) : nullptr; }
void drv_resume(void* h) { std::coroutine_handle<>::from_address(h).resume(); }
void drv_destroy(void* h) { std::coroutine_handle<>::from_address(h).destroy(); }
bool drv_done(void* h) { return std::coroutine_handle<>::from_address(h).done(); }
void drv_nop() {}
}
