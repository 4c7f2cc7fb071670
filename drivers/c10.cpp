#include "noaddr.hpp"
#include <utility>
#include <memory>
#include <atomic>
#include <thread>
#include <limits>
#include <kelcoro/latch.hpp>
#include <kelcoro/job.hpp>
using namespace dd;
struct ext_exe {
  void* d;
  void attach(task_node*);
  NO_ADDR
};
extern "C" {
unsigned long drv_size() { return sizeof(latch); }
void drv_ctor(void* p, std::ptrdiff_t n, ext_exe* e) { new (p) latch(n, *e); }
void drv_count_down(latch* l, std::ptrdiff_t n) { l->count_down(n); }
bool drv_ready(const latch* l) { return l->ready(); }
void drv_exe(const latch* l, task_node* n) {
  any_executor_ref e = l->get_executor();
  e.attach(n);
}
job drv_wait(latch* l, int* out) {
  co_await l->wait();
  *out = 1;
}
job drv_arrive(latch* l, std::ptrdiff_t n, int* out) {
  co_await l->arrive_and_wait(n);
  *out = 1;
}
}
