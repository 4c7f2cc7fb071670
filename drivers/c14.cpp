#include <utility>
#include <memory>
#include <atomic>
#include <thread>
#include <optional>
#include <vector>
#include <ranges>
#include <span>
#include <kelcoro/logical_thread.hpp>
using namespace dd;
struct gate {
  void** h;
  bool await_ready() const noexcept { return false; }
  void await_suspend(std::coroutine_handle<> c) noexcept { *h = c.address(); }
  void await_resume() noexcept {}
};
// any other type that can be stopped
struct ext_th {
  void* d;
  void request_stop();
  void join();
};
// local whose lifetime shows whether the body has been left
struct guard {
  int* out;
  ~guard() { *out += 100; }
};
logical_thread body(void** h, int* out) {
  guard g{out + 1};
  stop_token tok = co_await this_coro::stop_token;
  out[0] = 10 + tok.stop_requested();
  if (h)
    co_await gate{h};
  out[0] = 20 + tok.stop_requested();
}
extern "C" {
void drv_start(logical_thread* t, void** h, int* out) { new (t) logical_thread(body(h, out)); }
void drv_empty(logical_thread* t) { new (t) logical_thread(nullptr); }
void drv_dtor(logical_thread* t) { t->~logical_thread(); }
void drv_join(logical_thread* t) { t->join(); }
void drv_detach(logical_thread* t) { t->detach(); }
bool drv_request_stop(logical_thread* t) { return t->request_stop(); }
bool drv_joinable(logical_thread* t) { return t->joinable(); }
bool drv_stop_possible(logical_thread* t) { return t->stop_possible(); }
void drv_move(logical_thread* d, logical_thread* s) { new (d) logical_thread(std::move(*s)); }
void drv_assign(logical_thread* d, logical_thread* s) { *d = std::move(*s); }
void drv_swap(logical_thread* d, logical_thread* s) { swap(*d, *s); }
void drv_resume(void* h) { std::coroutine_handle<>::from_address(h).resume(); }
void drv_stop1(logical_thread* a) { dd::stop(*a); }
void drv_stop2(ext_th* a, ext_th* b) { dd::stop(*a, *b); }
void drv_stop3(ext_th* a, ext_th* b, ext_th* c) { dd::stop(*a, *b, *c); }
void drv_stop_range(ext_th* p, size_t n) { dd::stop(std::span<ext_th>(p, n)); }
}
