// REPLAY-VARIANTS: asan
#include "sched.hpp"
#include <kelcoro/thread_pool.hpp>
using namespace dd;
struct plan {
  task_queue* q;
  std::vector<std::pair<int, bool>> log;   // who ran, was it normal
  std::vector<int> order;                  // what was pushed
};
// the node is in the frame: gone as soon as the task has run
static job task_job(plan& p, int id, int more) {
  auto st = co_await jump_on(*p.q);
  p.log.push_back({id, bool(st)});
  if (st)
    for (int i = 0; i < more; ++i) {
      p.order.push_back(id * 10 + i);
      task_job(p, id * 10 + i, 0);
    }
}
// suspends twice: the same node is used for two jumps
static job twice(plan& p, int id) {
  auto st = co_await jump_on(*p.q);
  p.log.push_back({id, bool(st)});
  if (!st)
    co_return;
  p.order.push_back(id);
  st = co_await jump_on(*p.q);
  p.log.push_back({id, bool(st)});
}
static void fill(plan& p, int& id, unsigned n) {
  while (n--) {
    ++id;
    p.order.push_back(id);
    if (kvc::rnd() % 4 == 0)
      twice(p, id);
    else
      task_job(p, id, kvc::rnd() % 4 == 0 ? 2 : 0);
  }
}
// batches of any length; the marker anywhere
SCENARIO(one_thread, 4000) {
  plan p;
  task_queue q;
  p.q = &q;
  int id = 0;
  unsigned before = kvc::rnd() % 6, behind = kvc::rnd() % 6;
  fill(p, id, before);
  auto* pill = new task_node(task_node::deadpill());
  q.push(pill);
  size_t mark = p.order.size();
  fill(p, id, behind);
  size_t all = p.order.size();
  default_worker_job(q);
  CHECK(p.log.size() == all);
  for (size_t i = 0; i < all; ++i) {
    CHECK(p.log[i].first == p.order[i]);
    CHECK(p.log[i].second == (i < mark));
  }
  delete pill;
  // what the tasks pushed while they ran is still queued, in order
  size_t i = all;
  for (task_node* t = q.pop_all(); t; ++i) {
    task_node* x = std::exchange(t, t->next);
    x->status = schedule_errc::cancelled;
    x->task.resume();
    CHECK(p.log.size() == i + 1 && p.log[i].first == p.order[i] && !p.log[i].second);
  }
  CHECK(i == p.order.size());
}
SCENARIO(with_pushers, 3000) {
  plan p;
  task_queue q;
  p.q = &q;
  std::thread w([&] { default_worker_job(q); });
  std::vector<std::thread> ts;
  std::atomic<int> sent{0};
  for (int i = 0; i < 2; ++i)
    ts.emplace_back([&, i] {
      for (int j = 0; j < 3; ++j) {
        sent.fetch_add(1);
        task_job(p, 1 + i * 3 + j, 0);
      }
    });
  if (kvc::rnd() % 2)
    for (auto& t : ts)
      t.join();
  noexport::push_deadpill(q);
  w.join();
  for (auto& t : ts)
    if (t.joinable())
      t.join();
  noexport::cancel_tasks(q.pop_all());
  CHECK(p.log.size() == 6 && sent.load() == 6);
  int last[2] = {0, 0};
  bool off = false;
  for (auto [id, ok] : p.log) {
    int w = (id - 1) / 3;
    CHECK(last[w] < id);
    last[w] = id;
    CHECK(!(off && ok));
    off |= !ok;
  }
}
// many workers' worth of markers in one queue
SCENARIO(markers, 500) {
  plan p;
  task_queue q;
  p.q = &q;
  int id = 0;
  fill(p, id, kvc::rnd() % 3);
  noexport::push_deadpill(q);
  size_t mark = p.order.size();
  fill(p, id, kvc::rnd() % 3);
  noexport::push_deadpill(q);
  fill(p, id, kvc::rnd() % 3);
  size_t all = p.order.size();
  default_worker_job(q);
  CHECK(p.log.size() == all);
  for (size_t i = 0; i < all; ++i)
    CHECK(p.log[i].first == p.order[i] && p.log[i].second == (i < mark));
  noexport::cancel_tasks(q.pop_all());
}
