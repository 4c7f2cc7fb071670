// REPLAY-VARIANTS: asan
#include "plain.hpp"
#include <kelcoro/generator.hpp>
using namespace dd;
// random programs of nested ranges; consumer: begin / ++, moves, swaps, release+reset, clear
struct node {
  char k;  // v: rvalue, c: const lvalue, r: by_ref, l: nested, e: nested and already iterated n steps, g: foreign range, x: throw, d: adopt another
  int val = 0, n = 0;
  std::vector<node> sub;
};
using prog = std::vector<node>;
static int g_id;
static bool g_pre;  // a partly iterated range was nested
static prog mk(int depth) {
  prog p;
  for (unsigned n = kvc::rnd() % 4; n; --n) {
    node x{"vcrvcrllegxl"[kvc::rnd() % 12]};
    x.val = ++g_id;
    if (depth == 0 && (x.k == 'l' || x.k == 'e'))
      x.k = 'v';
    if (x.k == 'l' || x.k == 'e')
      x.sub = mk(depth - 1), x.n = kvc::rnd() % 4;
    if (x.k == 'g')
      x.n = kvc::rnd() % 3;
    p.push_back(x);
  }
  return p;
}
// reference: the values (> 0), exceptions (-1)
static void flat(const prog& p, std::vector<int>& out) {
  for (auto& x : p) {
    if (x.k == 'l' || x.k == 'e') {
      std::vector<int> s;
      flat(x.sub, s);
      for (size_t i = x.k == 'e' ? std::min<size_t>(x.n, s.size()) : 0; i < s.size(); ++i)
        out.push_back(s[i]);
    } else if (x.k == 'g')
      for (int i = 0; i < x.n; ++i)
        out.push_back(x.val * 100 + i);
    else if (x.k == 'x') {
      out.push_back(-1);
      return;
    } else
      out.push_back(x.val);
  }
}
struct live {
  static inline int n = 0;
  live() { ++n; }
  ~live() { --n; }
};
static int g_wrote;  // what the consumer left in the yielded object
static int g_saw;
static generator<int> body(const prog* p) {
  live l;
  for (auto& x : *p) {
    if (x.k == 'v') {
      int v = x.val;
      co_yield std::move(v);
      g_saw = v;
    } else if (x.k == 'c') {
      const int v = x.val;
      co_yield v;
      CHECK(v == x.val);
      g_saw = g_wrote;
    } else if (x.k == 'r') {
      int v = x.val;
      co_yield by_ref{v};
      g_saw = v;
    } else if (x.k == 'l')
      co_yield elements_of(body(&x.sub));
    else if (x.k == 'e') {
      generator<int> g = body(&x.sub);
      g_pre = true;
      for (int i = 0; i < x.n && !g.empty(); ++i)
        try {
          (void)g.begin();
        } catch (int) {
        }
      co_yield elements_of(g);
      CHECK(g.empty());
    } else if (x.k == 'g') {
      std::vector<int> v;
      for (int i = 0; i < x.n; ++i)
        v.push_back(x.val * 100 + i);
      co_yield elements_of(v);
    } else
      throw 5;
  }
}
static void is_empty(generator<int>& g) {
  CHECK(g.empty() && !g);
  CHECK(g.begin() == g.end());
  int n = 0;
  for (int x : g)
    (void)x, ++n;
  CHECK(n == 0);
}
SCENARIO(histories, 6000) {
  g_id = 0;
  g_pre = false;
  {
    prog p = mk(3);
    std::vector<int> want;
    flat(p, want);
    generator<int> g = body(&p), other;
    CHECK(live::n == 0);
    size_t at = 0;
    bool fresh = false, rootdead = false;
    std::optional<generator_iterator<int>> it;
    for (int step = 0; step < 60; ++step) {
      unsigned a = kvc::rnd() % 12;
      if (a == 0) {
        generator<int> t(std::move(g));
        is_empty(g);
        g = std::move(t);
        is_empty(t);
        it.reset();
      } else if (a == 1) {
        swap(g, other);
        is_empty(g);
        kvc::rnd() % 2 ? g.swap(other) : void(g = std::move(other));
        it.reset();
      } else if (a == 2) {
        auto h = g.release();
        is_empty(g);
        if (kvc::rnd() % 2)
          g.reset(h);
        else {
          generator<int> t;
          t.reset(h);
          g = std::move(t);
        }
        it.reset();
        fresh = false;
      } else if (a == 3 && kvc::rnd() % 8 == 0) {
        if (kvc::rnd() % 2)
          g.clear();
        else
          g = generator<int>();
        is_empty(g);
        CHECK(live::n == 0);
        return;
      } else if (a == 4) {
        g.swap(g);
      } else {
        if (fresh) {
          CHECK(!g.empty());
          auto c = g.cur_iterator();
          CHECK(c != g.end() && *c == g_wrote);
          if (kvc::rnd() % 2) {
            *std::move(c).out() = 777;
            CHECK(*g.cur_iterator() == 777);
            g_wrote = 777;
          }
        }
        bool end = at == want.size();
        g_saw = -7;
        try {
          if (it && fresh && kvc::rnd() % 2)
            ++*it;
          else if (g.raw_handle() && !g.empty() && kvc::rnd() % 3 == 0) {
            it = g.cur_iterator();
            ++*it;
          } else
            it = g.begin();
          CHECK(g_pre || g_saw == -7 || g_saw == g_wrote);
          if (end) {
            CHECK(*it == g.end() && g.empty());
            is_empty(g);
            CHECK(live::n == 0 || !rootdead);
            break;
          }
          CHECK(*it != g.end());
          CHECK(want[at] > 0 && **it == want[at]);
          g_wrote = want[at];
          fresh = true;
        } catch (int e) {
          CHECK(e == 5 && !end && want[at] == -1);
          if (g.raw_handle())
            CHECK(g.cur_iterator() == g.end());
          fresh = false;
          it.reset();
        }
        ++at;
      }
    }
  }
  CHECK(live::n == 0);
}
static generator<nothing_t> units(int n, bool thr) {
  for (int i = 0; i < n; ++i)
    co_yield nothing_t{};
  if (thr)
    co_yield elements_of(units(1, false));
}
SCENARIO(units, 50) {
  int n = kvc::rnd() % 4;
  bool l = kvc::rnd() % 2;
  int c = 0;
  generator<nothing_t> e;
  CHECK(e.begin() == e.end());
  for (auto x : units(n, l))
    (void)x, ++c;
  CHECK(c == n + l);
}
static generator<int&> refs(int* a, int n) {
  for (int i = 0; i < n; ++i)
    co_yield a[i];
  if (n > 1)
    co_yield elements_of(refs(a, n - 1));
}
SCENARIO(refs, 20) {
  int a[4] = {};
  for (int& x : refs(a, 4))
    ++x;
  CHECK(a[0] == 4 && a[1] == 3 && a[2] == 2 && a[3] == 1);
}
// a copyable class: what is yielded as an lvalue stays as it was
static generator<std::vector<int>> copies(int n, bool* ok) {
  live l;
  std::vector<int> x;
  const std::vector<int>& cx = x;
  for (int i = 0; i < n; ++i) {
    x.push_back(i);
    if (i % 2)
      co_yield cx;
    else
      co_yield x;
    *ok = *ok && x.size() == size_t(i + 1) && x.back() == i;
  }
}
SCENARIO(copies, 5) {
  bool ok = true;
  int n = 0;
  for (auto&& e : copies(4, &ok)) {
    std::vector<int> t(std::move(e));
    CHECK(int(t.size()) == n + 1 && t.back() == n);
    ++n;
  }
  CHECK(ok && n == 4 && live::n == 0);
}
