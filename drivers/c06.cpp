#include <utility>
#include <memory>
#include <atomic>
#include <thread>
#include <optional>
#include <vector>
#include <kelcoro/thread_pool.hpp>
using namespace dd;
extern "C" {
void drv_worker_job(task_queue* q) { default_worker_job(*q); }
void drv_cancel(task_node* top) { noexport::cancel_tasks(top); }
}
