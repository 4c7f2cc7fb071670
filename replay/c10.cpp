// REPLAY-VARIANTS: asan, tsan
#include "sched.hpp"
#include <kelcoro/latch.hpp>
#include <kelcoro/job.hpp>
using namespace dd;
struct exec {
  std::atomic<int> attached{0};
  void attach(task_node* n) {
    attached.fetch_add(1);
    n->task.resume();
  }
};
struct st {
  std::atomic<int> woken{0}, arrived{0};
  int total;
  latch* l;
};
static job waiter(latch& l, st& s) {
  co_await l.wait();
  CHECK(l.ready());
  s.woken.fetch_add(1);
}
static job arriver(latch& l, st& s, int n) {
  co_await l.arrive_and_wait(n);
  CHECK(l.ready());
  s.woken.fetch_add(1);
}
SCENARIO(wait_vs_count_down, 4000) {
  exec e;
  st s;
  latch l(2, e);
  std::thread a([&] { waiter(l, s); });
  std::thread b([&] { l.count_down(); waiter(l, s); });
  l.count_down(1);
  a.join(), b.join();
  CHECK(l.ready());
  CHECK(s.woken.load() == 2);
}
SCENARIO(arrive_and_wait, 4000) {
  exec e;
  st s;
  latch l(4, e);
  std::thread a([&] { arriver(l, s, 2); });
  std::thread b([&] { arriver(l, s, 1); arriver(l, s, 0); });
  waiter(l, s);
  l.count_down(0);
  l.count_down(1);
  a.join(), b.join();
  CHECK(l.ready());
  CHECK(s.woken.load() == 4);
}
SCENARIO(sequential, 1) {
  exec e;
  {
    st s;
    latch l(0, e);
    CHECK(l.ready());
    waiter(l, s);
    CHECK(s.woken.load() == 1);
    arriver(l, s, 0);
    CHECK(s.woken.load() == 2);
  }
  for (int n = 1; n < 5; ++n)
    for (int w = 0; w < 5; ++w) {
      st s;
      exec e2;
      latch l(n, e2);
      for (int i = 0; i < w; ++i)
        waiter(l, s);
      for (int i = 0; i < n; ++i) {
        CHECK(s.woken.load() == 0);
        CHECK(!l.ready());
        l.count_down();
      }
      CHECK(s.woken.load() == w && e2.attached.load() == w);
    }
}
