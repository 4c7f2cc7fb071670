#include "noaddr.hpp"
#include <utility>
#include <memory>
#include <atomic>
#include <thread>
#include <optional>
#include <vector>
#include <kelcoro/events.hpp>
#include <kelcoro/job.hpp>
using namespace dd;
struct ext_exe {
  void* d;
  void attach(task_node*);
  NO_ADDR
};
// value whose source is emptied by a move
struct mval {
  int v = 0;
  mval() = default;
  explicit mval(int v) : v(v) {}
  mval(const mval& o) : v(o.v) {}
  mval(mval&& o) noexcept : v(o.v) { o.v = -1; }
  mval& operator=(const mval& o) {
    v = o.v;
    return *this;
  }
  mval& operator=(mval&& o) noexcept {
    v = o.v;
    o.v = -1;
    return *this;
  }
};
extern "C" {
void ext_cb(int tag, int v);
void drv_new_void(event<void>* e) { new (e) event<void>(); }
void drv_new_int(event<int>* e) { new (e) event<int>(); }
void drv_new_mval(event<mval>* e) { new (e) event<mval>(); }
bool drv_notify_void(event<void>* e, ext_exe* x) { return e->notify_all(*x); }
bool drv_notify_int(event<int>* e, ext_exe* x, int v) { return e->notify_all(*x, v); }
bool drv_notify_mval(event<mval>* e, ext_exe* x, int v) { return e->notify_all(*x, mval(v)); }
bool drv_notify_void_any(event<void>* e, ext_exe* x) {
  any_executor_ref r(*x);
  return e->notify_all(r);
}
bool drv_notify_mval_any(event<mval>* e, ext_exe* x, int v) { return e->notify_all(any_executor_ref(*x), mval(v)); }
job drv_sub_void(event<void>* e, int* out) {
  (void)co_await *e;
  *out = 1;
}
job drv_sub_int(event<int>* e, int* out) { *out = co_await *e; }
job drv_sub_mval(event<mval>* e, int* out) {
  mval m = co_await *e;
  *out = m.v;
}
void drv_cb_void(event<void>* e) {
  e->set_callback([] { ext_cb(1, 0); });
}
void drv_cb_int(event<int>* e) {
  e->set_callback([](int v) { ext_cb(2, v); });
}
void drv_cb_mval(event<mval>* e, int tag) {
  e->set_callback([tag](mval v) { ext_cb(tag, v.v); });
}
// C12
using std::get;
job drv_all1(event<int>* a, int* out) {
  auto t = co_await when_all(*a);
  out[0] = get<0>(t);
  out[3]++;
}
job drv_all2(event<int>* a, event<void>* b, int* out) {
  auto t = co_await when_all(*a, *b);
  out[0] = get<0>(t);
  out[3]++;
}
job drv_all3(event<int>* a, event<void>* b, event<mval>* c, int* out) {
  auto t = co_await when_all(*a, *b, *c);
  out[0] = get<0>(t);
  out[2] = get<2>(t).v;
  out[3]++;
}
job drv_all3b(event<mval>* a, event<mval>* b, event<mval>* c, int* out) {
  auto t = co_await when_all(*a, *b, *c);
  out[0] = get<0>(t).v;
  out[1] = get<1>(t).v;
  out[2] = get<2>(t).v;
  out[3]++;
}
job drv_any2(event<int>* a, event<void>* b, int* out) {
  auto t = co_await when_any(*a, *b);
  out[4] = t.index();
  if (auto* x = std::get_if<0>(&t))
    out[0] = *x;
  out[3]++;
}
job drv_any3(event<int>* a, event<void>* b, event<mval>* c, int* out) {
  auto t = co_await when_any(*a, *b, *c);
  out[4] = t.index();
  if (auto* x = std::get_if<0>(&t))
    out[0] = *x;
  if (auto* x = std::get_if<2>(&t))
    out[2] = x->v;
  out[3]++;
}
job drv_any3b(event<mval>* a, event<mval>* b, event<mval>* c, int* out) {
  auto t = co_await when_any(*a, *b, *c);
  out[4] = t.index();
  if (auto* x = std::get_if<0>(&t))
    out[0] = x->v;
  if (auto* x = std::get_if<1>(&t))
    out[1] = x->v;
  if (auto* x = std::get_if<2>(&t))
    out[2] = x->v;
  out[3]++;
}
}
