// REPLAY-VARIANTS: asan
#include "plain.hpp"
#include <kelcoro/inplace_generator.hpp>
using namespace dd;
// random histories: the body follows a script; the consumer steps, writes through references, moves and swaps
struct script {
  std::vector<int> ops;  // kind per yield
  size_t pc = 0;
  int base = 0;
  bool thr = false;
  std::vector<int> saw;  // what the body found in its variable
  bool running = false;
};
struct live {
  static inline int n = 0;
  live() { ++n; }
  ~live() { --n; }
};
static inplace_generator<int> body(script* s) {
  live l;
  while (s->pc < s->ops.size()) {
    int k = s->ops[s->pc], v = s->base + (int)s->pc;
    ++s->pc;
    if (k == 0) {
      co_yield int(v);
      s->saw.push_back(v);
    } else if (k == 1) {
      const int x = v;
      co_yield x;
      s->saw.push_back(x);
    } else {
      int x = v;
      co_yield by_ref{x};
      s->saw.push_back(x);
    }
  }
  if (s->thr)
    throw 5;
}
static inplace_generator<int&> bodyr(script* s) {
  live l;
  while (s->pc < s->ops.size()) {
    int k = s->ops[s->pc], x = s->base + (int)s->pc;
    ++s->pc;
    if (k == 0)
      co_yield x;
    else
      co_yield by_ref{x};
    s->saw.push_back(x);
  }
  if (s->thr)
    throw 5;
}
template <typename G, typename F>
static void history(F mk) {
  {
    script sc[2];
    std::optional<G> g[3];
    int who[3] = {0, 1, -1}, at[2] = {0, 0};  // which script a generator holds, its position
    std::vector<int> want[2];
    for (int i = 0; i < 2; ++i) {
      for (unsigned n = kvc::rnd() % 5; n; --n)
        sc[i].ops.push_back(kvc::rnd() % 3);
      sc[i].base = 100 * (i + 1);
      sc[i].thr = kvc::rnd() % 3 == 0 && !sc[i].ops.empty();
      g[i].emplace(mk(&sc[i]));
    }
    for (int step = 0; step < 14; ++step) {
      int i = kvc::rnd() % 3, j = kvc::rnd() % 3;
      switch (kvc::rnd() % 6) {
        case 0:
          if (g[i] && g[j] && i != j) {
            kvc::rnd() % 2 ? g[i]->swap(*g[j]) : swap(*g[i], *g[j]);
            std::swap(who[i], who[j]);
          }
          break;
        case 1:
          if (g[i] && !g[j]) {
            g[j].emplace(std::move(*g[i]));
            who[j] = who[i];
            who[i] = -1;
          }
          break;
        case 2:
          if (kvc::rnd() % 4 == 0) {
            g[i].reset();
            who[i] = -1;
          }
          break;
        default:
          if (!g[i])
            break;
          if (who[i] < 0) {
            CHECK(g[i]->empty() && !*g[i] && g[i]->begin() == g[i]->end());
            break;
          }
          script& s = sc[who[i]];
          int& p = at[who[i]];
          auto& w = want[who[i]];
          CHECK(s.saw == w);
          if (p >= (int)s.ops.size()) {
            CHECK(g[i]->empty() && g[i]->begin() == g[i]->end());
            break;
          }
          CHECK(!g[i]->empty() && g[i]->begin() != g[i]->end());
          auto it = g[i]->begin();
          CHECK(*it == s.base + p);
          int v = s.base + p;
          if (kvc::rnd() % 2) {
            auto&& r = *it;
            r = 7;
            if (std::is_reference_v<typename G::iterator::reference> && (s.ops[p] == 2 || std::is_same_v<G, inplace_generator<int&>>))
              v = 7;
          }
          ++p;
          w.push_back(v);
          bool threw = false;
          try {
            if (kvc::rnd() % 2)
              ++it;
            else
              it++;
          } catch (int e) {
            CHECK(e == 5);
            threw = true;
          }
          CHECK(threw == (s.thr && p == (int)s.ops.size()));
      }
    }
  }
  CHECK(live::n == 0);
}
SCENARIO(values, 4000) { history<inplace_generator<int>>([](script* s) { return body(s); }); }
SCENARIO(references, 4000) { history<inplace_generator<int&>>([](script* s) { return bodyr(s); }); }
SCENARIO(drain, 300) {
  script s;
  for (unsigned n = kvc::rnd() % 9; n; --n)
    s.ops.push_back(kvc::rnd() % 3);
  int i = 0;
  for (int x : body(&s))
    CHECK(x == i++);
  CHECK(i == (int)s.ops.size() && live::n == 0);
}
// a copyable class: what is yielded as an lvalue stays as it was
static inplace_generator<std::vector<int>> copies(int n, bool* ok) {
  live l;
  std::vector<int> x;
  const std::vector<int>& cx = x;
  for (int i = 0; i < n; ++i) {
    x.push_back(i);
    co_yield cx;
    *ok = *ok && x.size() == size_t(i + 1) && x.back() == i;
  }
}
SCENARIO(copies, 5) {
  bool ok = true;
  int n = 0;
  for (auto&& e : copies(4, &ok)) {
    std::vector<int> t(std::move(e));
    CHECK(int(t.size()) == n + 1 && t.back() == n);
    ++n;
  }
  CHECK(ok && n == 4 && live::n == 0);
}
// a generator may be driven while another exception is on its way
static inplace_generator<int> failing(bool* caught) {
  try {
    co_yield 1;
    throw 5;
  } catch (...) {
    *caught = true;
    throw;
  }
}
struct driver {
  bool* thrown;
  ~driver() {
    bool caught = false;
    try {
      for (int x : failing(&caught))
        CHECK(x == 1);
    } catch (int e) {
      *thrown = caught && e == 5;
    }
  }
};
SCENARIO(unwinding, 2) {
  bool thrown = false;
  try {
    driver d{&thrown};
    throw 1;
  } catch (int) {
  }
  CHECK(thrown);
}
