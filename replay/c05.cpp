// REPLAY-VARIANTS: asan, tsan
#include "sched.hpp"
#include <kelcoro/thread_pool.hpp>
using namespace dd;
struct item : task_node {
  int who = 0, seq = 0;
};
static item* mk(int who, int seq) {
  auto* i = new item;
  i->who = who, i->seq = seq;
  // whatever was there before
  i->next = (task_node*)0x10;
  return i;
}
// takes a popped list apart; everything is freed at once
static int take(task_node* t, std::vector<int>& last) {
  int n = 0;
  while (t) {
    auto* i = static_cast<item*>(t);
    t = t->next;
    CHECK(last[i->who] < i->seq);
    last[i->who] = i->seq;
    delete i;
    ++n;
  }
  return n;
}
static int push_some(task_queue& q, int who, int& seq) {
  unsigned n = kvc::rnd() % 4;
  if (n == 0) {
    q.push(mk(who, ++seq));
    return 1;
  }
  item *f = mk(who, ++seq), *l = f;
  for (unsigned j = 1; j < n; ++j) {
    auto* x = mk(who, ++seq);
    l->next = x;
    l = x;
  }
  l->next = nullptr;
  if (kvc::rnd() % 2)
    q.push_list(f, l);
  else
    q.push_list(f);
  return n;
}
// reference: what was pushed and not popped comes back, in order
SCENARIO(sequential, 3000) {
  task_queue q;
  int seq = 0, popped = 0;
  for (int i = 0; i < 20; ++i) {
    if (kvc::rnd() % 3)
      push_some(q, 0, seq);
    else if (seq == popped || kvc::rnd() % 2) {
      task_node* t = q.pop_all();
      CHECK((t == nullptr) == (seq == popped));
      for (; t; ) {
        auto* x = static_cast<item*>(t);
        t = t->next;
        CHECK(x->seq == ++popped);
        delete x;
      }
      CHECK(popped == seq);
    } else {
      task_node* t = q.pop_all_not_empty();
      CHECK(t);
      for (; t; ) {
        auto* x = static_cast<item*>(t);
        t = t->next;
        CHECK(x->seq == ++popped);
        delete x;
      }
      CHECK(popped == seq);
    }
    if (kvc::rnd() % 8 == 0)
      q.push_list(nullptr);
  }
  std::vector<int> last(1, popped);
  popped += take(q.pop_all(), last);
  CHECK(popped == seq && q.pop_all() == nullptr);
}
SCENARIO(one_consumer, 3000) {
  task_queue q;
  std::atomic<int> sent{0}, fin{0};
  const int P = 1 + kvc::rnd() % 3;
  std::vector<std::thread> ts;
  for (int p = 0; p < P; ++p)
    ts.emplace_back([&, p] {
      int seq = 0;
      for (int j = 0; j < 3; ++j)
        sent.fetch_add(push_some(q, p, seq));
      fin.fetch_add(1);
    });
  std::vector<int> last(P + 1, 0);
  int got = 0;
  // every producer pushes at least three nodes
  while (got < 3 * P) {
    task_node* t = q.pop_all_not_empty();
    CHECK(t);
    got += take(t, last);
  }
  for (auto& t : ts)
    t.join();
  got += take(q.pop_all(), last);
  CHECK(got == sent.load());
  CHECK(q.pop_all() == nullptr);
}
// a consumer that blocks, others that do not
SCENARIO(consumers, 3000) {
  task_queue q;
  std::atomic<int> got{0};
  std::vector<std::thread> ts;
  int s0 = 0, s1 = 0, sent = 0;
  ts.emplace_back([&] {
    std::vector<int> l(2, 0);
    got.fetch_add(take(q.pop_all_not_empty(), l));
  });
  ts.emplace_back([&] {
    std::vector<int> l(2, 0);
    got.fetch_add(take(q.pop_all(), l));
  });
  ts.emplace_back([&] {
    for (int i = 0; i < 2; ++i)
      q.push(mk(1, ++s1));
  });
  for (int i = 0; i < 2; ++i)
    sent += push_some(q, 0, s0);
  ts[1].join(), ts[2].join();
  // the blocked consumer gets this or has already got something
  sent += push_some(q, 0, s0);
  ts[0].join();
  std::vector<int> l(2, 0);
  got.fetch_add(take(q.pop_all(), l));
  CHECK(got.load() == sent + 2);
}
// several blocked consumers: one push each is enough for all
SCENARIO(blocked, 3000) {
  task_queue q;
  std::atomic<int> got{0}, woke{0};
  std::vector<std::thread> ts;
  for (int i = 0; i < 2; ++i)
    ts.emplace_back([&] {
      std::vector<int> l(1, 0);
      got.fetch_add(take(q.pop_all_not_empty(), l));
      woke.fetch_add(1);
      woke.notify_all();
    });
  int s = 0;
  q.push(mk(0, ++s));
  for (int w; (w = woke.load()) == 0;)
    woke.wait(w);
  q.push(mk(0, ++s));
  ts[0].join(), ts[1].join();
  CHECK(got.load() == 2);
}
