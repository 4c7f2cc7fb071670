// REPLAY-VARIANTS: asan
#include "plain.hpp"
#include <kelcoro/channel.hpp>
using namespace dd;
// random programs of nested channels whose bodies suspend; consumers use begin / ++ / next / co_foreach, between two
// elements the channel is moved, swapped, released and adopted, another consumer takes over
struct node {
  char k;  // v: rvalue, c: const lvalue, r: by_ref, l: nested, e: nested and already iterated n steps, g: foreign range, x: throw, s: suspends
  int val = 0, n = 0;
  std::vector<node> sub;
};
using prog = std::vector<node>;
static int g_id;
static prog mk(int depth) {
  prog p;
  for (unsigned n = kvc::rnd() % 4; n; --n) {
    node x{"vcrvcrllegxlss"[kvc::rnd() % 14]};
    x.val = ++g_id;
    if (depth == 0 && (x.k == 'l' || x.k == 'e'))
      x.k = 'v';
    if (x.k == 'l' || x.k == 'e')
      x.sub = mk(depth - 1), x.n = kvc::rnd() % 4;
    if (x.k == 'g')
      x.n = kvc::rnd() % 3;
    p.push_back(x);
  }
  return p;
}
static void flat(const prog& p, std::vector<int>& out) {
  for (auto& x : p) {
    if (x.k == 'l' || x.k == 'e') {
      std::vector<int> s;
      flat(x.sub, s);
      for (size_t i = x.k == 'e' ? std::min<size_t>(x.n, s.size()) : 0; i < s.size(); ++i)
        out.push_back(s[i]);
    } else if (x.k == 'g')
      for (int i = 0; i < x.n; ++i)
        out.push_back(x.val * 100 + i);
    else if (x.k == 'x') {
      out.push_back(-1);
      return;
    } else if (x.k != 's')
      out.push_back(x.val);
  }
}
struct live {
  static inline int n = 0;
  live() { ++n; }
  ~live() { --n; }
};
static std::coroutine_handle<> g_susp;
struct suspend_here {
  bool await_ready() const noexcept { return false; }
  void await_suspend(std::coroutine_handle<> h) noexcept {
    CHECK(!g_susp);
    g_susp = h;
  }
  void await_resume() noexcept {}
};
static channel<int> body(const prog* p) {
  live l;
  for (auto& x : *p) {
    if (x.k == 'v')
      co_yield int(x.val);
    else if (x.k == 'c') {
      const int v = x.val;
      co_yield v;
      CHECK(v == x.val);
    } else if (x.k == 'r') {
      int v = x.val;
      co_yield by_ref{v};
      CHECK(v == x.val || v == 777);
    } else if (x.k == 's')
      co_await suspend_here{};
    else if (x.k == 'l')
      co_yield elements_of(body(&x.sub));
    else if (x.k == 'e') {
      channel<int> g = body(&x.sub);
      for (int i = 0; i < x.n && !g.empty(); ++i) {
        (void)co_await g.next();
        (void)g.take_exception();
      }
      co_yield elements_of(g);
      CHECK(g.empty());
    } else if (x.k == 'g') {
      std::vector<int> v;
      for (int i = 0; i < x.n; ++i)
        v.push_back(x.val * 100 + i);
      co_yield elements_of(v);
    } else
      throw 5;
  }
}
struct co {
  struct promise_type {
    co get_return_object() { return {std::coroutine_handle<promise_type>::from_promise(*this)}; }
    std::suspend_never initial_suspend() noexcept { return {}; }
    std::suspend_always final_suspend() noexcept { return {}; }
    void return_void() noexcept {}
    void unhandled_exception() noexcept { kvc::die("an exception left the consumer"); }
  };
  std::coroutine_handle<promise_type> h;
};
struct stop {
  std::coroutine_handle<>* h;
  bool await_ready() const noexcept { return false; }
  void await_suspend(std::coroutine_handle<> c) noexcept { *h = c; }
  void await_resume() noexcept {}
};
struct cons {
  std::coroutine_handle<> parked;
  int op = 0;
  channel<int>* ch = nullptr;
  int result = -9;  // element, 0: end, -1: exception; -9: nothing
  int n = 0;
  co c{};
  int* where = nullptr;
};
static co consume(cons* s) {
  using it = channel_iterator<int>;
  alignas(it) char buf[sizeof(it)];
  it* i = nullptr;
  for (;;) {
    co_await stop{&s->parked};
    auto drop = [&](bool check) {
      if (!i)
        return;
      it* j = std::exchange(i, nullptr);
      try {
        j->~channel_iterator();
      } catch (int e) {
        CHECK(check && e == 5);
        s->result = -1;
      }
    };
    if (s->op == 0) {
      drop(false);
      co_return;
    }
    if (s->op == 1 || (s->op == 2 && !i)) {
      drop(false);
      new (buf) it(co_await s->ch->begin());
      i = (it*)buf;
    } else if (s->op == 2)
      co_await ++*i;
    ++s->n;
    if (s->op == 3) {
      int* p = co_await s->ch->next();
      s->where = p;
      s->result = p ? *p : 0;
      if (!p)
        if (auto e = s->ch->take_exception()) {
          CHECK(!s->ch->take_exception());
          s->result = -1;
        }
    } else if (s->op == 5)
      drop(false);
    else {
      bool end = *i == s->ch->end();
      s->where = end ? nullptr : i->operator->();
      s->result = end ? 0 : **i;
      if (end)
        drop(true);
    }
    CHECK(!s->ch || !s->ch->take_exception());
  }
}
// one operation of a consumer; suspended bodies are resumed from here
static int step(cons& s, int op, channel<int>* ch) {
  s.op = op, s.ch = ch, s.result = -9, s.n = 0;
  auto h = std::exchange(s.parked, nullptr);
  CHECK(h);
  h.resume();
  for (int k = 0; !s.parked && op; ++k) {
    CHECK(g_susp);  // somebody must be able to go on
    CHECK(s.result == -9);
    std::exchange(g_susp, nullptr).resume();
  }
  CHECK(!g_susp && s.n == (op != 0));
  return s.result;
}
static void is_empty(channel<int>& g) {
  CHECK(g.empty() && !g);
  cons c;
  c.c = consume(&c);
  CHECK(step(c, 1, &g) == 0);
  CHECK(step(c, 3, &g) == 0);
  step(c, 5, nullptr);
  step(c, 0, nullptr);
  c.c.h.destroy();
}
SCENARIO(histories, 6000) {
  g_id = 0;
  g_susp = nullptr;
  cons a, b;
  cons* last = nullptr;
  a.c = consume(&a), b.c = consume(&b);
  {
    prog p = mk(3);
    std::vector<int> want;
    flat(p, want);
    channel<int> g = body(&p), other;
    CHECK(live::n == 0);
    size_t at = 0;
    bool moved = true;
    auto drop_its = [&] { step(a, 5, nullptr), step(b, 5, nullptr); };
    for (int st = 0; st < 60; ++st) {
      unsigned x = kvc::rnd() % 12;
      if (x == 0) {
        drop_its();
        channel<int> t(std::move(g));
        is_empty(g);
        g = std::move(t);
        is_empty(t);
      } else if (x == 1) {
        drop_its();
        swap(g, other);
        is_empty(g);
        kvc::rnd() % 2 ? g.swap(other) : void(g = std::move(other));
      } else if (x == 2) {
        drop_its();
        auto h = g.release();
        is_empty(g);
        if (kvc::rnd() % 2)
          g.reset(h);
        else {
          channel<int> t;
          t.reset(h);
          g = std::move(t);
        }
        last = nullptr;
      } else if (x == 3 && kvc::rnd() % 8 == 0) {
        drop_its();
        if (kvc::rnd() % 2)
          g.clear();
        else
          g = channel<int>();
        is_empty(g);
        CHECK(live::n == 0);
        break;
      } else if (x == 4) {
        g.swap(g);
      } else {
        cons& c = kvc::rnd() % 2 ? a : b;
        int op = 1 + kvc::rnd() % 3;
        if (op == 2 && &c != last)
          op = 1;
        if (g.empty() && op == 2)
          op = 1;
        bool end = at == want.size();
        int r = step(c, op, &g);
        last = &c;
        if (end) {
          CHECK(r == 0);
          drop_its();
          is_empty(g);
          break;
        }
        CHECK(r == (want[at] == -1 ? -1 : want[at]));
        if (r > 0) {
          CHECK(!g.empty());
          if (kvc::rnd() % 2)
            *c.where = 777;
        }
        ++at;
      }
    }
    drop_its();
  }
  step(a, 0, nullptr), step(b, 0, nullptr);
  a.c.h.destroy(), b.c.h.destroy();
  CHECK(live::n == 0);
}
static co loop(channel<int>* g, std::vector<int>* out) {
  try {
    co_foreach(int x, *g) out->push_back(x);
    out->push_back(0);
  } catch (int) {
    out->push_back(-1);
  }
}
SCENARIO(foreach, 1000) {
  g_id = 0;
  g_susp = nullptr;
  {
    prog p = mk(3);
    std::vector<int> want, got;
    flat(p, want);
    channel<int> g = body(&p);
    size_t at = 0;
    for (bool more = true; more;) {
      got.clear();
      co c = loop(&g, &got);
      while (g_susp)
        std::exchange(g_susp, nullptr).resume();
      CHECK(c.h.done());
      c.h.destroy();
      for (int x : got) {
        if (at == want.size()) {
          CHECK(x == 0 && got.back() == 0);
          more = false;
          break;
        }
        CHECK(x == want[at]);
        ++at;
      }
      if (more)
        CHECK(got.back() == -1);
    }
    CHECK(g.empty());
  }
  CHECK(live::n == 0);
}
static channel<int&> refs(int* a, int n) {
  for (int i = 0; i < n; ++i)
    co_yield a[i];
  if (n > 1)
    co_yield elements_of(refs(a, n - 1));
}
static co inc(int* a, bool* ok) {
  channel<int&> c = refs(a, 4);
  co_foreach(int& x, c)++ x;
  *ok = true;
}
SCENARIO(refs, 20) {
  int a[4] = {};
  bool ok = false;
  co c = inc(a, &ok);
  CHECK(ok && a[0] == 4 && a[1] == 3 && a[2] == 2 && a[3] == 1);
  c.h.destroy();
}
// one consumer iterates two channels whose contents are swapped under its iterators
static channel<int> count(int from) {
  for (;;)
    co_yield int(from++);
}
static co both(bool* ok) {
  channel<int> a = count(10), b = count(20);
  auto x = co_await a.begin();
  auto y = co_await b.begin();
  CHECK(x.equivalent(x) && !x.equivalent(y) && &x.owner() == &a);
  swap(a, b);
  CHECK(*x == 20 && *y == 10);
  co_await ++x;
  CHECK(*x == 21 && *y == 10);
  co_await ++y;
  CHECK(*x == 21 && *y == 11);
  *ok = true;
}
SCENARIO(swapped, 1) {
  bool ok = false;
  co c = both(&ok);
  CHECK(ok);
  c.h.destroy();
}
// a copyable class: what is yielded as an lvalue stays as it was
static channel<std::vector<int>> copies(int n, bool* ok) {
  live l;
  std::vector<int> x;
  const std::vector<int>& cx = x;
  for (int i = 0; i < n; ++i) {
    x.push_back(i);
    if (i % 2)
      co_yield cx;
    else
      co_yield x;
    *ok = *ok && x.size() == size_t(i + 1) && x.back() == i;
  }
}
static co copies_consumer(bool* ok, bool* fin) {
  channel<std::vector<int>> c = copies(4, ok);
  int n = 0;
  co_foreach(std::vector<int>&& e, c) {
    std::vector<int> t(std::move(e));
    CHECK(int(t.size()) == n + 1 && t.back() == n);
    ++n;
  }
  *fin = n == 4;
}
SCENARIO(copies, 5) {
  bool ok = true, fin = false;
  co c = copies_consumer(&ok, &fin);
  CHECK(ok && fin);
  c.h.destroy();
  CHECK(live::n == 0);
}
