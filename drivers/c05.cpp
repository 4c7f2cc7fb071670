#include <utility>
#include <memory>
#include <atomic>
#include <thread>
#include <optional>
#include <vector>
#include <kelcoro/thread_pool.hpp>
using namespace dd;
extern "C" {
void drv_push(task_queue* q, task_node* n) { q->push(n); }
void drv_attach(task_queue* q, task_node* n) { q->attach(n); }
void drv_push_list2(task_queue* q, task_node* a, task_node* b) { q->push_list(a, b); }
void drv_push_list1(task_queue* q, task_node* a) { q->push_list(a); }
task_node* drv_pop_all(task_queue* q) { return q->pop_all(); }
task_node* drv_pop_wait(task_queue* q) { return q->pop_all_not_empty(); }
}
