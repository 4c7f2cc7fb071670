#include "gate.hpp"
#include <kelcoro/algorithm.hpp>
using namespace dd;
extern "C" {
int ext_val_of(int i);        // may throw
void ext_effect_of(int i);    // may throw
void ext_owner(void*, void*) noexcept;
void ext_start(void*) noexcept;
void ext_end(void*) noexcept;
void ext_body_of(int i) noexcept;
void ext_res(int i, int ok, int v) noexcept;
void ext_err(int i, void* e) noexcept;
}
extern "C" void ext_parked(int i) noexcept;
struct pgate {
  void** h;
  int i;
  bool await_ready() const noexcept { return false; }
  void await_suspend(std::coroutine_handle<> c) noexcept {
    *h = c.address();
    ext_parked(i);
  }
  void await_resume() noexcept {}
};
struct Ctx {
  NO_ADDR
  template <typename O, typename T>
  void on_owner_setted(std::coroutine_handle<O> o, std::coroutine_handle<T> t) noexcept { ext_owner(o.address(), t.address()); }
  template <typename T>
  void on_start(std::coroutine_handle<T> t) noexcept { ext_start(t.address()); }
  template <typename T>
  void on_end(std::coroutine_handle<T> t) noexcept { ext_end(t.address()); }
};
// movable only
struct mown : own {
  mown() : own(0) {}
  explicit mown(int v) : own(v) {}
  mown(mown&&) = default;
  mown& operator=(mown&&) = default;
};
task<int, Ctx> kid_int(int i, void** h) {
  ext_body_of(i);
  if (h)
    co_await pgate{h, i};
  co_return ext_val_of(i);
}
task<mown, Ctx> kid_own(int i, void** h) {
  ext_body_of(i);
  if (h)
    co_await pgate{h, i};
  co_return mown(ext_val_of(i));
}
task<void, Ctx> kid_void(int i, void** h) {
  ext_body_of(i);
  if (h)
    co_await pgate{h, i};
  ext_effect_of(i);
}
static void give(int i, int& v) { ext_res(i, 1, v); }
static void give(int i, mown& v) { ext_res(i, 1, *v.p); }
template <typename T>
static void rep(int i, expected<T, std::exception_ptr>& r) {
  if (!r.has_value())
    ext_err(i, *(void**)&std::get<1>(r.data));
  else if constexpr (std::is_void_v<T>)
    ext_res(i, 2, 0);
  else
    give(i, *r);
}
template <typename... Ts>
static void report(std::variant<std::monostate, expected<Ts, std::exception_ptr>...>& r) {
  ext_event((int)r.index());
  [&]<size_t... Is>(std::index_sequence<Is...>) {
    ((r.index() == Is + 1 ? rep<Ts>(Is + 1, *std::get_if<Is + 1>(&r)) : void()), ...);
  }(std::index_sequence_for<Ts...>{});
}
// the awaiting side: destroys the when_any task as soon as it has the result, or (keep) parks with it
template <typename T>
co owner(T t, void** keep) {
  try {
    {
      T x = std::move(t);
      auto r = co_await x;
      ext_gotvoid();
      report(r);
      if (keep)
        co_await gate{keep};
    }
    ext_event(-1);
  } catch (...) {
    ext_caught();
  }
}
#define O(...) owner(when_any(__VA_ARGS__), keep).h.address()
#define K(T, i) kid_##T(i, h##i)
extern "C" {
void* drv_i(void** keep, void** h0) { return O(K(int, 0)); }
void* drv_v(void** keep, void** h0) { return O(K(void, 0)); }
void* drv_ii(void** keep, void** h0, void** h1) { return O(K(int, 0), K(int, 1)); }
void* drv_vo(void** keep, void** h0, void** h1) { return O(K(void, 0), K(own, 1)); }
void* drv_oiv(void** keep, void** h0, void** h1, void** h2) { return O(K(own, 0), K(int, 1), K(void, 2)); }
void drv_resume(void* h) { std::coroutine_handle<>::from_address(h).resume(); }
void drv_destroy(void* h) { std::coroutine_handle<>::from_address(h).destroy(); }
bool drv_done(void* h) { return std::coroutine_handle<>::from_address(h).done(); }
}
