// REPLAY-VARIANTS: asan, tsan
#include "sched.hpp"
#include <kelcoro/events.hpp>
#include <kelcoro/job.hpp>
using namespace dd;
struct val {
  std::unique_ptr<int> p;
  val() = default;
  explicit val(int x) : p(new int(x)) {}
  val(const val& o) : p(o.p ? new int(*o.p) : nullptr) {}
  val(val&&) noexcept = default;
  val& operator=(const val& o) {
    if (this != &o)
      p.reset(o.p ? new int(*o.p) : nullptr);
    return *this;
  }
  val& operator=(val&&) noexcept = default;
};
struct exec {
  void attach(task_node* t) { t->task.resume(); }
};
struct res {
  std::atomic<int> n{0};
  int idx = -1, a = 0, c = 0;
};
static job all3(event<int>& a, event<void>& b, event<val>& c, res& r) {
  auto t = co_await when_all(a, b, c);
  r.a = std::get<0>(t);
  CHECK(std::get<2>(t).p);
  r.c = *std::get<2>(t).p;
  r.n.fetch_add(1);
}
static job any3(event<int>& a, event<void>& b, event<val>& c, res& r) {
  auto t = co_await when_any(a, b, c);
  r.idx = (int)t.index();
  if (r.idx == 0)
    r.a = std::get<0>(t);
  if (r.idx == 2)
    r.c = *std::get<2>(t).p;
  r.n.fetch_add(1);
}
SCENARIO(sequential, 1) {
  int p[3] = {0, 1, 2};
  do {
    event<int> a;
    event<void> b;
    event<val> c;
    res r, q;
    all3(a, b, c, r);
    any3(a, b, c, q);
    exec x;
    for (int i = 0; i < 3; ++i) {
      CHECK(r.n == 0);
      if (p[i] == 0)
        CHECK(a.notify_all(x, 5));
      if (p[i] == 1)
        CHECK(b.notify_all(x));
      if (p[i] == 2)
        CHECK(c.notify_all(x, val(6)));
      CHECK(q.n == 1 && q.idx == p[0]);
      CHECK(p[0] != 0 || q.a == 5);
      CHECK(p[0] != 2 || q.c == 6);
      // events that nobody waits for any more
      if (p[i] == 0)
        CHECK(!a.notify_all(x, 50));
    }
    CHECK(r.n == 1 && r.a == 5 && r.c == 6);
  } while (std::next_permutation(p, p + 3));
}
SCENARIO(when_all_race, 3000) {
  event<int> a;
  event<void> b;
  event<val> c;
  res r;
  std::thread t1([&] {
    exec x;
    while (!a.notify_all(x, 5))
      ;
  });
  std::thread t2([&] {
    exec x;
    while (!c.notify_all(x, val(6)))
      ;
  });
  all3(a, b, c, r);
  exec x;
  CHECK(b.notify_all(x));
  t1.join(), t2.join();
  CHECK(r.n.load() == 1 && r.a == 5 && r.c == 6);
}
SCENARIO(when_any_race, 3000) {
  event<int> a;
  event<void> b;
  event<val> c;
  res r;
  std::thread t1([&] {
    exec x;
    while (!a.notify_all(x, 5))
      ;
  });
  std::thread t2([&] {
    exec x;
    while (!c.notify_all(x, val(6)))
      ;
  });
  any3(a, b, c, r);
  exec x;
  CHECK(b.notify_all(x));
  t1.join(), t2.join();
  CHECK(r.n.load() == 1);
  CHECK(r.idx == 0 ? r.a == 5 : r.idx == 2 ? r.c == 6 : r.idx == 1);
}
