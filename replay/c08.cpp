// REPLAY-VARIANTS: asan
#include "sched.hpp"
#include <kelcoro/thread_pool.hpp>
using namespace dd;
// workers that only wait for the end: what was pushed stays where it was put
static std::vector<std::pair<task_queue*, std::vector<task_node*>>>* g_kept;
static void idle(task_queue& q) {
  std::vector<task_node*> all;
  for (;;)
    for (task_node* t = q.pop_all_not_empty(); t;) {
      task_node* x = std::exchange(t, t->next);
      if (!x->task) {
        for (auto& [p, v] : *g_kept)
          if (p == &q)
            v.insert(v.end(), all.begin(), all.end());
        noexport::cancel_tasks(t);
        return;
      }
      all.push_back(x);
    }
}
static std::coroutine_handle<> handle_at(size_t a) { return std::coroutine_handle<>::from_address((void*)a); }
static bool mine(thread_pool& p, task_queue& q) {
  auto r = p.queues_range();
  return &q >= r.data() && &q < r.data() + r.size();
}
SCENARIO(select, 300) {
  unsigned n = kvc::rnd() % 5;
  thread_pool p(n);
  CHECK(p.queues_range().size() == std::max(1u, n) && p.workers_range().size() == std::max(1u, n));
  for (int i = 0; i < 200; ++i) {
    size_t h = kvc::rnd() % 4 ? ((size_t)kvc::rnd() << 40) ^ ((size_t)kvc::rnd() << 20) ^ kvc::rnd() : (size_t)0 - kvc::rnd() % 9;
    task_queue& q = p.select_queue(h);
    CHECK(mine(p, q));
    CHECK(&p.select_queue(h) == &q);
    CHECK(&p.get_strand(h).get_queue() == &q);
  }
}
SCENARIO(attach, 600) {
  unsigned n = 1 + kvc::rnd() % 4;
  std::vector<std::pair<task_queue*, std::vector<task_node*>>> kept;
  g_kept = &kept;
  std::vector<task_node> nodes(kvc::rnd() % 12);
  std::vector<task_queue*> want;
  bool list = kvc::rnd() % 3 == 0;
  {
    thread_pool p(n, idle);
    for (auto& q : p.queues_range())
      kept.push_back({&q, {}});
    for (size_t i = 0; i < nodes.size(); ++i) {
      nodes[i].task = handle_at(0x1000 + (kvc::rnd() % 5) * 16);
      want.push_back(&p.select_queue(calculate_operation_hash(nodes[i].task)));
    }
    if (list) {
      for (size_t i = 0; i + 1 < nodes.size(); ++i)
        nodes[i].next = &nodes[i + 1];
      attach_list(p, nodes.empty() ? nullptr : &nodes[0]);
    } else
      for (auto& x : nodes)
        if (kvc::rnd() % 2)
          p.attach(&x);
        else {
          strand s = p.get_strand(calculate_operation_hash(x.task));
          s.attach(&x);
        }
  }
  std::map<task_node*, std::vector<task_queue*>> got;
  for (auto& [q, v] : kept) {
    task_node* prev = nullptr;
    for (task_node* x : v) {
      got[x].push_back(q);
      CHECK(list || !prev || prev < x);
      prev = x;
    }
  }
  CHECK(got.size() == nodes.size());
  for (size_t i = 0; i < nodes.size(); ++i) {
    CHECK(got[&nodes[i]].size() == 1);
    if (!list)
      CHECK(got[&nodes[i]][0] == want[i]);
  }
}
static job jumper(thread_pool& p, std::vector<std::thread::id>& where, int hops, int& fin) {
  while (hops--) {
    if (!co_await jump_on(p))
      break;
    where.push_back(std::this_thread::get_id());
  }
  ++fin;
}
static job hashed(thread_pool& p, size_t& h, std::coroutine_handle<>& me) {
  struct who {
    std::coroutine_handle<>* r;
    bool await_ready() { return false; }
    bool await_suspend(std::coroutine_handle<> x) {
      *r = x;
      return false;
    }
    void await_resume() {}
  };
  co_await who{&me};
  h = calculate_operation_hash(me);
  co_await jump_on(p);
}
SCENARIO(jump, 1500) {
  std::vector<std::thread::id> where[3];
  int fin = 0;
  std::atomic<int> calls{0};
  size_t h = kvc::rnd();
  std::vector<std::thread::id> ids;
  std::map<size_t, std::vector<std::thread::id>> by;
  {
    thread_pool p(1 + kvc::rnd() % 3);
    for (auto& t : p.workers_range())
      ids.push_back(t.get_id());
    for (auto& w : where)
      jumper(p, w, 3, fin);
    for (int i = 0; i < 4; ++i) {
      size_t hh = h + i % 2;
      p.schedule([&, hh] {
        calls.fetch_add(1);
        by[hh].push_back(std::this_thread::get_id());
        CHECK(std::this_thread::get_id() == ids[&p.select_queue(hh) - p.queues_range().data()]);
      }, hh);
    }
    p.schedule([&] { calls.fetch_add(1); });
  }
  CHECK(fin == 3 && calls.load() <= 5);
  for (auto& w : where)
    for (auto& t : w) {
      CHECK(t == w[0]);   // the same coroutine, the same thread
      CHECK(std::count(ids.begin(), ids.end(), t) == 1);
    }
  for (auto& [hh, v] : by)
    for (auto& t : v)
      CHECK(t == v[0]);
}
// a jump lands on the queue of the coroutine's own hash
SCENARIO(jump_queue, 300) {
  std::vector<std::pair<task_queue*, std::vector<task_node*>>> kept;
  g_kept = &kept;
  size_t h[4];
  std::coroutine_handle<> me[4];
  task_queue* want[4];
  {
    thread_pool p(1 + kvc::rnd() % 4, idle);
    for (auto& q : p.queues_range())
      kept.push_back({&q, {}});
    for (int i = 0; i < 4; ++i) {
      hashed(p, h[i], me[i]);
      want[i] = &p.select_queue(h[i]);
    }
  }
  int n = 0;
  for (auto& [q, v] : kept)
    for (task_node* x : v)
      for (int i = 0; i < 4; ++i)
        if (x->task == me[i]) {
          CHECK(q == want[i]);
          ++n;
        }
  CHECK(n == 4);
  for (auto& [q, v] : kept)
    for (task_node* x : v)
      x->task.resume();
}
// what is scheduled behind a stop marker is cancelled: the function is not called
struct canceller {
  int n = 0;
  void attach(task_node* x) {
    ++n;
    x->status = schedule_errc::cancelled;
    x->task.resume();
  }
};
SCENARIO(cancelled, 200) {
  int calls = 0;
  {
    thread_pool p(1 + kvc::rnd() % 3);
    p.request_stop();
    p.schedule([&] { ++calls; });
    p.schedule([&] { ++calls; }, kvc::rnd());
    schedule_to(p, [&] { ++calls; });
  }
  CHECK(calls == 0);
  canceller c;
  schedule_to(c, [&] { ++calls; });
  schedule_to(c, [&] { ++calls; }, with_resource{*std::pmr::get_default_resource()});
  CHECK(calls == 0 && c.n == 2);
}
