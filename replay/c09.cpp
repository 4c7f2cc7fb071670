// REPLAY-VARIANTS: asan, tsan
#include "sched.hpp"
#include <kelcoro/nonowner_lockfree_stack.hpp>
using namespace dd;
struct item {
  item* next = nullptr;
  int who = 0, seq = 0;
};
using stack = nonowner_lockfree_stack<item>;
static item* mk(int who, int seq) {
  auto* i = new item;
  i->who = who, i->seq = seq;
  i->next = (item*)0x10;
  return i;
}
// newest first: the numbers of one pusher fall inside a batch and are above those of earlier batches of the same taker
static int take(item* t, std::vector<int>& seen) {
  int n = 0;
  std::vector<int> low(seen.size(), 1 << 30), top(seen.size(), 0);
  while (t) {
    item* i = t;
    t = t->next;
    CHECK(i->seq < low[i->who]);
    low[i->who] = i->seq;
    CHECK(i->seq > seen[i->who]);
    top[i->who] = std::max(top[i->who], i->seq);
    delete i;
    ++n;
  }
  for (size_t i = 0; i < seen.size(); ++i)
    seen[i] = std::max(seen[i], top[i]);
  return n;
}
static int push_some(stack& s, int who, int& seq) {
  unsigned n = kvc::rnd() % 4;
  if (n == 0) {
    s.push(mk(who, ++seq));
    return 1;
  }
  item* t = nullptr;
  for (unsigned j = 0; j < n; ++j) {
    item* x = mk(who, ++seq);
    x->next = t;
    t = x;
  }
  s.push_stack(t);
  return n;
}
SCENARIO(sequential, 3000) {
  stack s;
  int seq = 0, have = 0;
  std::vector<int> seen(1, 0);
  for (int i = 0; i < 20; ++i) {
    if (kvc::rnd() % 3)
      have += push_some(s, 0, seq);
    else {
      item* t = s.try_pop_all();
      int x = seq;
      for (item* j = t; j; j = j->next)
        CHECK(j->seq == x--);
      CHECK(take(t, seen) == have);
      have = 0;
    }
    if (kvc::rnd() % 8 == 0)
      s.push_stack(nullptr);
  }
  CHECK(take(s.try_pop_all(), seen) == have);
  CHECK(s.try_pop_all() == nullptr);
}
SCENARIO(concurrent, 4000) {
  stack s;
  const int P = 1 + kvc::rnd() % 3, T = 1 + kvc::rnd() % 2;
  std::atomic<int> sent{0}, got{0};
  std::vector<std::thread> ts;
  for (int p = 0; p < P; ++p)
    ts.emplace_back([&, p] {
      int seq = 0;
      for (int j = 0; j < 3; ++j)
        sent.fetch_add(push_some(s, p, seq));
    });
  for (int t = 0; t < T; ++t)
    ts.emplace_back([&] {
      std::vector<int> seen(P, 0);
      for (int j = 0; j < 3; ++j)
        got.fetch_add(take(s.try_pop_all(), seen));
    });
  for (auto& t : ts)
    t.join();
  std::vector<int> seen(P, 0);
  got.fetch_add(take(s.try_pop_all(), seen));
  CHECK(got.load() == sent.load());
}
// one moves lists from stack to stack
SCENARIO(moving, 3000) {
  stack a, b;
  std::atomic<int> sent{0}, got{0};
  std::vector<std::thread> ts;
  for (int p = 0; p < 2; ++p)
    ts.emplace_back([&, p] {
      int seq = 0;
      for (int j = 0; j < 2; ++j)
        sent.fetch_add(push_some(a, p, seq));
    });
  ts.emplace_back([&] {
    for (int j = 0; j < 2; ++j)
      b.push_stack(a.try_pop_all());
  });
  ts.emplace_back([&] {
    int n = 0;
    for (item* t = b.try_pop_all(); t; ++n)
      delete std::exchange(t, t->next);
    got.fetch_add(n);
  });
  for (auto& t : ts)
    t.join();
  for (auto* s : {&a, &b})
    for (item* t = s->try_pop_all(); t; got.fetch_add(1))
      delete std::exchange(t, t->next);
  CHECK(got.load() == sent.load());
}
