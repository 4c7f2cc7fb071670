#include "noaddr.hpp"
#include <kelcoro/executor_interface.hpp>
#include <kelcoro/common.hpp>
#include <kelcoro/job.hpp>
#include <kelcoro/async_task.hpp>
using namespace dd;
// an executor about which nothing is known but the contract of the `executor` concept
struct ext_exe {
  void* d;
  void attach(task_node*);
  NO_ADDR
};
// executor whose attach is const and which is passed by value / as temporary
struct ext_cexe {
  void* d;
  void attach(task_node*) const;
  NO_ADDR
};
extern "C" {
void drv_attach_list(ext_exe* e, task_node* top) { attach_list(*e, top); }
void drv_attach_list_any(ext_exe* e, task_node* top) {
  any_executor_ref r(*e);
  attach_list(r, top);
}
task_node* drv_reverse(task_node* top) { return reverse_list(top); }
void drv_any_attach(ext_exe* e, task_node* n) {
  any_executor_ref r(*e);
  r.attach(n);
}
void drv_any_copy(ext_exe* e, ext_exe* e2, task_node* n) {
  any_executor_ref r(*e);
  any_executor_ref r2(*e2);
  any_executor_ref c(r);
  any_executor_ref m(std::move(c));
  m.attach(n);
}
job drv_jump(ext_exe* e, int* out) {
  schedule_status s = co_await jump_on(*e);
  *out = bool(s) ? (int)s.what : 100 + (int)s.what;
}
job drv_jump_any(ext_exe* e, int* out) {
  any_executor_ref r(*e);
  schedule_status s = co_await jump_on(r);
  *out = bool(s) ? (int)s.what : 100 + (int)s.what;
}
job drv_jump_noop(int* out) {
  schedule_status s = co_await jump_on(noop_executor);
  *out = 1;
}
job drv_jump_this(int* out) {
  schedule_status s = co_await jump_on(this_thread_executor);
  *out = bool(s) ? (int)s.what : 100 + (int)s.what;
}
void drv_this_attach(task_node* n) { this_thread_executor.attach(n); }
void drv_new_thread_attach(task_node* n) { new_thread_executor.attach(n); }
void drv_noop_attach(task_node* n) { noop_executor.attach(n); }
}
