#include <utility>
#include <memory>
#include <atomic>
#include <thread>
#include <optional>
#include <vector>
#include <kelcoro/thread_pool.hpp>
using namespace dd;
extern "C" {
void drv_worker_dtor(worker* w) { w->~worker(); }
void drv_pool_dtor(thread_pool* p) { p->~thread_pool(); }
void drv_pool_ctor(void* mem, size_t n, worker::job_t job, std::pmr::memory_resource* r) { new (mem) thread_pool(n, job, *r); }
void drv_worker_ctor(void* mem, worker::job_t job) { new (mem) worker(job); }
void drv_request_stop(thread_pool* p) { p->request_stop(); }
void drv_wait_stop(thread_pool* p) { std::move(*p).wait_stop(); }
job drv_push_deadpill(task_queue* q) { return noexport::push_deadpill(*q); }
}
