// REPLAY-VARIANTS: asan
#include "sched.hpp"
#include <kelcoro/executor_interface.hpp>
#include <kelcoro/job.hpp>
using namespace dd;
// keeps what it gets
struct keeper {
  std::vector<task_node*> got;
  void attach(task_node* n) {
    CHECK(n->task);
    got.push_back(n);
  }
};
// runs the task at once: the node is gone when attach returns
struct runner {
  int n = 0;
  schedule_errc e = schedule_errc::ok;
  void attach(task_node* x) {
    ++n;
    x->status = e;
    x->task.resume();
  }
};
struct node_list {
  std::vector<task_node*> v;
  task_node* make(unsigned n) {
    for (unsigned i = 0; i < n; ++i) {
      v.push_back(new task_node);
      v.back()->task = std::coroutine_handle<>::from_address((void*)(size_t)(16 + 16 * i));
      if (i)
        v[i - 1]->next = v[i];
    }
    return n ? v[0] : nullptr;
  }
};
// frees each node it gets
struct eater {
  std::vector<task_node*> got;
  void attach(task_node* x) {
    got.push_back(x);
    delete x;
  }
};
// hands the node to somebody else, who links it anew
struct relinker {
  std::vector<task_node*> got;
  void attach(task_node* x) {
    x->next = got.empty() ? nullptr : got.back();
    got.push_back(x);
  }
};
template <typename E>
static void lists() {
  for (unsigned n = 0; n < 9; ++n)
    for (bool erased : {false, true}) {
      node_list l;
      task_node* top = l.make(n);
      E e;
      if (erased) {
        any_executor_ref r(e);
        any_executor_ref r2 = r;
        attach_list(r2, top);
      } else
        attach_list(e, top);
      CHECK(e.got == l.v);
      if constexpr (!std::is_same_v<E, eater>)
        for (auto* x : l.v)
          delete x;
    }
}
SCENARIO(attach_lists, 1) {
  lists<keeper>();
  lists<eater>();
  lists<relinker>();
}
SCENARIO(reverse, 1) {
  for (unsigned n = 0; n < 9; ++n) {
    node_list l;
    task_node* t = reverse_list(l.make(n));
    for (unsigned i = n; i--; t = t->next) {
      CHECK(t == l.v[i]);
      CHECK(t->task.address() == (void*)(size_t)(16 + 16 * i));
    }
    CHECK(t == nullptr);
    for (auto* x : l.v)
      delete x;
  }
}
static job jump(auto& e, std::vector<int>& log) {
  auto st = co_await jump_on(e);
  log.push_back((int)st.what);
  CHECK(bool(st) == (st.what == schedule_errc::ok));
}
SCENARIO(jumps, 1) {
  for (auto c : {schedule_errc::ok, schedule_errc::cancelled, schedule_errc::timed_out, schedule_errc::executor_overload}) {
    std::vector<int> log;
    runner r;
    r.e = c;
    jump(r, log);
    CHECK(r.n == 1 && log.size() == 1 && log[0] == (int)c);
    any_executor_ref a(r);
    jump(a, log);
    CHECK(r.n == 2 && log.size() == 2 && log[1] == (int)c);
    keeper k;
    any_executor_ref b(k);
    jump(k, log);
    jump(b, log);
    CHECK(k.got.size() == 2 && log.size() == 2);
    for (auto* x : std::vector(k.got)) {
      x->status = c;
      x->task.resume();
      CHECK(log.back() == (int)c);
    }
    CHECK(log.size() == 4 && k.got.size() == 2);
  }
  std::vector<int> log;
  jump(this_thread_executor, log);
  CHECK(log.size() == 1 && log[0] == 0);
}
SCENARIO(new_thread, 300) {
  std::vector<int> log;
  std::atomic<int> fin{0};
  auto f = [](std::atomic<int>& fin, std::thread::id me) -> job {
    auto st = co_await jump_on(new_thread_executor);
    CHECK(st);
    CHECK(std::this_thread::get_id() != me);
    fin.fetch_add(1);
    fin.notify_all();
  };
  f(fin, std::this_thread::get_id());
  f(fin, std::this_thread::get_id());
  for (int v; (v = fin.load()) != 2;)
    fin.wait(v);
  CHECK(fin.load() == 2);
}
