#include <kelcoro/nonowner_lockfree_stack.hpp>
#include <kelcoro/executor_interface.hpp>
using namespace dd;
using stack_t_ = nonowner_lockfree_stack<task_node>;
extern "C" {
void drv_push(stack_t_* s, task_node* n) { s->push(n); }
void drv_push_stack(stack_t_* s, task_node* n) { s->push_stack(n); }
task_node* drv_pop(stack_t_* s) { return s->try_pop_all(); }
}
