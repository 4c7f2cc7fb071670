// REPLAY-VARIANTS: asan, tsan
#include "sched.hpp"
#include <kelcoro/events.hpp>
#include <kelcoro/job.hpp>
using namespace dd;
struct val {
  std::unique_ptr<int> p;
  val() = default;
  explicit val(int x) : p(new int(x)) {}
  val(const val& o) : p(o.p ? new int(*o.p) : nullptr) {}
  val(val&&) noexcept = default;
  val& operator=(const val& o) {
    if (this != &o)
      p.reset(o.p ? new int(*o.p) : nullptr);
    return *this;
  }
  val& operator=(val&&) noexcept = default;
};
struct exec {
  int n = 0;
  void attach(task_node* t) {
    ++n;
    t->task.resume();
  }
};
struct lazy_exec {  // keeps the nodes and runs them later
  std::vector<task_node*> v;
  void attach(task_node* t) { v.push_back(t); }
  void run() {
    for (auto* t : std::exchange(v, {}))
      t->task.resume();
  }
};
struct log_ {
  std::atomic<int> n{0}, sum{0};
};
static job sub(event<val>& e, log_& l) {
  val v = co_await e;
  CHECK(v.p);
  l.sum.fetch_add(*v.p);
  l.n.fetch_add(1);
}
static job subi(event<int>& e, log_& l) {
  l.sum.fetch_add(co_await e);
  l.n.fetch_add(1);
}
static job subv(event<void>& e, log_& l) {
  (void)co_await e;
  l.n.fetch_add(1);
}
static job resub(event<val>& e, log_& l, int k) {
  for (int i = 0; i < k; ++i) {
    val v = co_await e;
    CHECK(v.p);
    l.sum.fetch_add(*v.p);
    l.n.fetch_add(1);
  }
}
SCENARIO(sequential, 1) {
  for (int n = 0; n < 5; ++n) {
    event<val> e;
    event<int> ei;
    event<void> ev;
    log_ l, li, lv, lc, lr;
    for (int i = 0; i < n; ++i) {
      sub(e, l), subi(ei, li), subv(ev, lv);
      e.set_callback([&lc](val v) {
        CHECK(v.p);
        lc.sum.fetch_add(*v.p);
        lc.n.fetch_add(1);
      });
    }
    if (n > 1)
      resub(e, lr, 3);
    exec x;
    lazy_exec z;
    CHECK(e.notify_all(x, val(7)) == (n > 0));
    CHECK(x.n == 2 * n + (n > 1));
    CHECK(l.n == n && l.sum == 7 * n && lc.n == n && lc.sum == 7 * n);
    CHECK(lr.n == (n > 1));
    CHECK(e.notify_all(z, val(8)) == (n > 1));
    CHECK(lr.n == (n > 1));
    z.run();
    CHECK(lr.n == 2 * (n > 1));
    CHECK(ei.notify_all(any_executor_ref(z), 5) == (n > 0));
    CHECK(li.n == 0);
    z.run();
    CHECK(li.n == n && li.sum == 5 * n);
    CHECK(ev.notify_all(x) == (n > 0));
    CHECK(lv.n == n);
    CHECK(!ev.notify_all(x));
    CHECK(!ei.notify_all(x, 1));
    e.notify_all(x, val(9));
    CHECK(lr.n == 3 * (n > 1));
    CHECK(!e.notify_all(x, val(9)));
    CHECK(l.n == n && lc.n == n);
  }
}
SCENARIO(notify_vs_subscribe, 3000) {
  event<val> e;
  log_ l;
  std::thread a([&] { sub(e, l), resub(e, l, 2); });
  std::thread b([&] {
    exec x;
    e.notify_all(x, val(1));
    e.notify_all(x, val(1));
  });
  sub(e, l);
  {
    exec x;
    e.notify_all(x, val(1));
  }
  a.join(), b.join();
  exec x;
  while (e.notify_all(x, val(1)))
    ;
  CHECK(l.n.load() == 4 && l.sum.load() == 4);
}
SCENARIO(notify_void, 2000) {
  event<void> e;
  log_ l;
  std::thread a([&] { subv(e, l), subv(e, l); });
  exec x;
  bool w = e.notify_all(x);
  CHECK(w == (x.n > 0));
  a.join();
  exec y;
  e.notify_all(y);
  CHECK(l.n.load() == 2 && x.n + y.n == 2);
}
