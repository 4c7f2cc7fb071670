SEEDS=[
dict(id='queue-tail',prop='C05',edits=[('thread_pool.hpp','''      last->next = first_;
      last = last_;''','''      last->next = std::exchange(last, first_);''')] if 0 else [('thread_pool.hpp','''      last->next = first_;
      last = last_;''','''      last = last->next = first_;''')],
needs='a list of two or more nodes pushed into a queue that is not empty, then another push before the queue is emptied',
breaks='push_list leaves `last` at the head of the appended list, so the next push overwrites a link and the rest of that list is lost',
demo=r'''
#include <utility>
#include <memory>
#include <cstdio>
#include <kelcoro/thread_pool.hpp>
int main() {
  dd::task_queue q;
  dd::task_node n[5];
  q.push(&n[0]);
  n[1].next = &n[2], n[2].next = &n[3];
  q.push_list(&n[1]);
  q.push(&n[4]);
  dd::task_node* t = q.pop_all();
  for (int i = 0; i < 5; ++i, t = t->next)
    if (t != &n[i])
      return printf("node %d lost\n", i), 1;
  return t != nullptr;
}
'''),
dict(id='latch-release-only',prop='C10',edits=[('latch.hpp','''counter.fetch_sub(n, std::memory_order::acq_rel);''','''counter.fetch_sub(n, std::memory_order::release);''')],
needs='two threads that count down, the one that reaches zero also resumes the waiters, which read what the other thread wrote',
breaks='the last count_down no longer acquires, so work done before the other arrivals is not visible to the resumed waiters (data race)',
flags='-fsanitize=thread -DKVC_FREE -DNDEBUG',
demo=r'''
#include "sched.hpp"
#include <kelcoro/latch.hpp>
#include <kelcoro/job.hpp>
using namespace dd;
struct exec {
  void attach(task_node* n) { n->task.resume(); }
};
static job waiter(latch& l, int* data, int& sum) {
  co_await l.wait();
  sum = data[0] + data[1];
}
SCENARIO(race, 300) {
  exec e;
  int data[2] = {0, 0};
  int sum = 0;
  latch l(2, e);
  waiter(l, data, sum);
  std::thread a([&] { data[0] = 1; l.count_down(); });
  std::thread b([&] { data[1] = 2; l.count_down(); });
  a.join(), b.join();
  CHECK(sum == 3);
}
'''),
dict(id='event-pop-split',prop='C11',edits=[('nonowner_lockfree_stack.hpp','''    return top.exchange(nullptr, acq_rel);''','''    node_type* all = top.load(acquire);
    if (all)  // do not write the shared line when there is nothing to take
      top.store(nullptr, release);
    return all;''')],
needs='a subscription that lands between the load and the store of a concurrent notify_all',
breaks='the subscriber pushed in between is dropped from the event and is never resumed',
demo=r'''
#include "sched.hpp"
#include <kelcoro/events.hpp>
using namespace dd;
struct exec {
  void attach(task_node* n) { n->task.resume(); }
};
static job sub(event<int>& e, std::atomic<int>& n) {
  n.fetch_add(co_await e);
}
SCENARIO(race, 2000) {
  static event<int> e;
  std::atomic<int> n{0};
  sub(e, n);
  {
    std::thread a([&] { sub(e, n); });
    exec x;
    e.notify_all(x, 1);
    a.join();
  }
  exec x;
  e.notify_all(x, 1);
  CHECK(n.load() == 2);
}
'''),
dict(id='when-all-early-count',prop='C12',edits=[('events.hpp','''            auto count_ = std::atomic_ref(this->count);
            std::get<EventIndex>(this->input) = std::move(input_);
            if (count_.fetch_add(1, std::memory_order::acq_rel) == sizeof...(Inputs) - 1)
              handle.resume();''','''            auto count_ = std::atomic_ref(this->count);
            const bool last = count_.fetch_add(1, std::memory_order::acq_rel) == sizeof...(Inputs) - 1;
            std::get<EventIndex>(this->input) = std::move(input_);
            if (last)
              handle.resume();''')],
needs='two events of one when_all notified concurrently, the last one between the count and the store of the first',
breaks='the coroutine is resumed before the input of the other event is stored: it observes a default value (and the late store writes to a dead frame)',
demo=r'''
#include "sched.hpp"
#include <kelcoro/events.hpp>
using namespace dd;
struct exec {
  void attach(task_node* n) { n->task.resume(); }
};
static std::atomic<int> step{0};
struct val {  // a type whose moves take long enough to be overtaken
  int v = 0;
  val() = default;
  val(int x) : v(x) {}
  val(const val&) = default;
  val(val&& o) noexcept : v(o.v) {}
  val& operator=(const val&) = default;
  val& operator=(val&& o) noexcept {
    step.fetch_add(1);
    v = o.v;
    return *this;
  }
};
static job both(event<val>& a, event<val>& b, int& x, int& y) {
  auto t = co_await when_all(a, b);
  x = std::get<0>(t).v, y = std::get<1>(t).v;
}
SCENARIO(race, 3000) {
  event<val> a, b;
  int x = 0, y = 0;
  both(a, b, x, y);
  {
    std::thread t([&] { exec e; a.notify_all(e, 1); });
    exec e;
    b.notify_all(e, 2);
    t.join();
  }
  CHECK(x == 1 && y == 2);
}
'''),
dict(id='worker-no-final-cancel',prop='C07',edits=[('thread_pool.hpp','''    auto pill = task_node::deadpill();
    queue.push(&pill);
    thread.join();
    noexport::cancel_tasks(queue.pop_all());
  }''','''    auto pill = task_node::deadpill();
    queue.push(&pill);
    thread.join();  // the worker job cancels everything behind the pill
  }''')],
needs='a task attached to the worker after the batch with the pill was taken and before ~worker ends (here: from a task cancelled behind the pill)',
breaks='a task still in the queue when the worker is destroyed is neither executed nor cancelled: its coroutine is lost',
demo=r'''
#include "sched.hpp"
#include <kelcoro/thread_pool.hpp>
using namespace dd;
static job late(worker& w, std::atomic<int>& n, std::atomic<int>& started) {
  started.fetch_add(1);
  (void)co_await jump_on(w);
  n.fetch_add(1);
}
static void custom(task_queue& q) { default_worker_job(q); }
SCENARIO(race, 2000) {
  std::atomic<int> n{0}, started{0};
  {
    worker w(custom);
    {
      // an external stop request ends the worker thread; tasks attached after it wait for ~worker
      noexport::push_deadpill(strand(w).get_queue());
    }
    std::thread t([&] { late(w, n, started); });
    t.join();
  }
  CHECK(n.load() == 1);
}
'''),
dict(id='pill-requeue',prop='C06',edits=[('thread_pool.hpp','''  // after this point .stop in thread pool cancels all pending tasks in queues for all workers
  noexport::cancel_tasks(top);''','''  // give the rest back, .stop in thread pool cancels all pending tasks in queues for all workers
  queue.push_list(top);''')],
needs='tasks queued behind the dead pill in the batch which the worker job takes',
breaks='the worker job returns without cancelling the tasks behind the pill: with a queue that no pool owns they are never resumed',
demo=r'''
#include <utility>
#include <memory>
#include <cstdio>
#include <kelcoro/thread_pool.hpp>
#include <kelcoro/job.hpp>
using namespace dd;
static job t(task_queue& q, int& ran, int& cancelled) {
  if (co_await jump_on(q))
    ++ran;
  else
    ++cancelled;
}
int main() {
  task_queue q;
  int r = 0, c = 0;
  task_node p1 = task_node::deadpill();
  t(q, r, c);
  q.push(&p1);
  t(q, r, c);
  t(q, r, c);
  default_worker_job(q);
  if (r != 1 || c != 2)
    return printf("ran %d cancelled %d\n", r, c), 1;
}
'''),
]
