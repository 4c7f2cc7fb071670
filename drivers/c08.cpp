#include "noaddr.hpp"
#include <utility>
#include <memory>
#include <atomic>
#include <thread>
#include <optional>
#include <vector>
#include <kelcoro/thread_pool.hpp>
using namespace dd;
// a callable about which nothing is known
extern "C" void ext_call(void*);
struct functor {
  void* f;
  void operator()() const { ext_call(f); }
};
struct ext_exe {
  void* d;
  void attach(task_node*);
  NO_ADDR
};
extern "C" {
task_queue* drv_select(thread_pool* p, size_t h) { return &p->select_queue(h); }
task_queue* drv_strand(thread_pool* p, size_t h) { return &p->get_strand(h).get_queue(); }
size_t drv_hash(void* a) { return calculate_operation_hash(std::coroutine_handle<>::from_address(a)); }
size_t drv_hash_job(void* a) { return calculate_operation_hash(std::coroutine_handle<job_promise>::from_address(a)); }
size_t drv_hash_res(void* a) {
  return calculate_operation_hash(
      std::coroutine_handle<resourced_promise<job_promise, new_delete_resource>>::from_address(a));
}
void drv_attach(thread_pool* p, task_node* n) { p->attach(n); }
void drv_strand_attach(thread_pool* p, size_t h, task_node* n) {
  strand s = p->get_strand(h);
  strand c = s;
  c.attach(n);
}
void drv_attach_list(thread_pool* p, task_node* top) { attach_list(*p, top); }
void drv_worker_attach(worker* w, task_node* n) { w->attach(n); }
void drv_worker_strand_attach(worker* w, task_node* n) { strand(*w).attach(n); }
job drv_jump(thread_pool* p, int* out) {
  schedule_status s = co_await jump_on(*p);
  *out = bool(s) ? (int)s.what : 100 + (int)s.what;
}
job drv_jump_strand(thread_pool* p, int* out, size_t h) {
  strand st = p->get_strand(h);
  schedule_status s = co_await jump_on(st);
  *out = bool(s) ? (int)s.what : 100 + (int)s.what;
}
void drv_schedule(thread_pool* p, void* f, size_t h) { p->schedule(functor{f}, h); }
void drv_schedule1(thread_pool* p, void* f) { p->schedule(functor{f}); }
void drv_schedule_to(ext_exe* e, void* f) { schedule_to(*e, functor{f}); }
}
