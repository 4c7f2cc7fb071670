// REPLAY-VARIANTS: asan
#include "plain.hpp"
#include <map>
#include <new>
#include <span>
#include <kelcoro/stack_memory_resource.hpp>
using namespace dd;
// what the heap handed out while the resource was asking
static bool g_in;
static std::map<char*, size_t>* g_chunks;
static unsigned g_news;
static char* take(size_t n) {
  char* p = (char*)std::malloc(n ? n : 1);
  if (g_in) {
    g_in = false;
    (*g_chunks)[p] = n;
    ++g_news;
    g_in = true;
  }
  return p;
}
static void give(void* p) {
  if (p && g_in) {
    g_in = false;
    CHECK(g_chunks->count((char*)p) == 1);
    g_chunks->erase((char*)p);
    g_in = true;
  }
  std::free(p);
}
void* operator new(size_t n) { return take(n); }
void* operator new[](size_t n) { return take(n); }
void operator delete(void* p) noexcept { give(p); }
void operator delete[](void* p) noexcept { give(p); }
void operator delete(void* p, size_t) noexcept { give(p); }
void operator delete[](void* p, size_t) noexcept { give(p); }
struct block {
  char* p;
  size_t n;
  unsigned char c;
};
struct model {
  std::map<char*, size_t> chunks;
  char* buf = nullptr;
  size_t bufn = 0;
  std::vector<block> live;
  stack_resource* r;
  bool sure = true;   // it is known which chunks are free
  char* in(char* p, size_t n) {
    if (buf && p >= buf && p + n <= buf + bufn)
      return buf;
    for (auto& [q, m] : chunks)
      if (p >= q && p + n <= q + m)
        return q;
    return nullptr;
  }
  template <typename F>
  void with(F f) {
    g_chunks = &chunks;
    g_in = true;
    f();
    g_in = false;
  }
  void intact() {
    for (auto& b : live)
      for (size_t i = 0; i < b.n; ++i)
        CHECK((unsigned char)b.p[i] == b.c);
  }
  void alloc(size_t n) {
    void* v;
    g_news = 0;
    auto before = chunks;
    with([&] { v = r->allocate(n); });
    char* p = (char*)v;
    CHECK((uintptr_t)p % coroframe_align() == 0);
    if (n) {
      CHECK(p != nullptr);
      CHECK(in(p, n) != nullptr);
    }
    for (auto& b : live)
      CHECK(p + n <= b.p || b.p + b.n <= p);
    CHECK(g_news <= 1);
    if (g_news) {
      // a heap chunk without living blocks that is large enough would have been taken
      size_t a = (n + 15) & ~size_t(15);
      for (auto& [q, m] : before) {
        bool used = false;
        for (auto& b : live)
          used |= b.n && b.p >= q && b.p < q + m;
        if (sure && !used)
          CHECK(m < a + 32);
      }
      size_t low = 0;
      for (auto& b : live)
        low += (b.n + 15) & ~size_t(15);
      if (buf && sure && live.empty())
        CHECK(a > bufn);
    }
    block b{p, n, (unsigned char)(kvc::rnd() | 1)};
    if (n)
      std::memset(p, b.c, n);
    live.push_back(b);
  }
  void dealloc() {
    block b = live.back();
    intact();
    live.pop_back();
    g_news = 0;
    auto before = chunks;
    with([&] { r->deallocate(b.p, b.n); });
    CHECK(g_news == 0);
    CHECK(chunks == before);
    sure = b.n && in(b.p, b.n) == buf && buf;
    intact();
  }
  void back() {
    // what was freed is there again
    block b = live.back();
    dealloc();
    g_news = 0;
    alloc(b.n);
    CHECK(g_news == 0);
    CHECK(live.back().p == b.p);
  }
  void reuse() {
    auto before = chunks;
    with([&] { r->reuse_memory(); });
    CHECK(chunks == before);
    live.clear();
    sure = true;
  }
};
inline void history(unsigned steps, bool moves) {
  static const size_t sizes[] = {0, 16, 32, 48, 512, 4096};
  size_t bn = kvc::rnd() % 3 ? sizes[kvc::rnd() % 6] : kvc::rnd() % 700;
  size_t top = kvc::rnd() % 2 ? 600 : 5000;
  model m;
  if (bn || kvc::rnd() % 2) {
    // exactly as large as said
    m.buf = (char*)std::malloc(bn ? bn : 1);
    m.bufn = bn;
  }
  auto mk = [&] { return new stack_resource(std::span<unsigned char>((unsigned char*)m.buf, m.buf ? bn : 0)); };
  m.r = mk();
  for (unsigned i = 0; i < steps; ++i) {
    unsigned k = kvc::rnd() % 100;
    if (k < 50 || (k < 85 && m.live.empty()))
      m.alloc(kvc::rnd() % 8 ? kvc::rnd() % top : (kvc::rnd() % 40) * 16);
    else if (k < 80)
      m.dealloc();
    else if (k < 90)
      m.live.empty() ? void() : m.back();
    else if (k < 93) {
      while (!m.live.empty())
        m.dealloc();
    } else if (k < 95)
      m.reuse();
    else if (moves && k < 97) {
      stack_resource* n;
      auto before = m.chunks;
      m.with([&] { n = nullptr; });
      n = (stack_resource*)std::malloc(sizeof(stack_resource));
      m.with([&] { new (n) stack_resource(std::move(*m.r)); });
      CHECK(m.chunks == before);
      // the source owns nothing
      model e;
      e.r = m.r;
      if (kvc::rnd() % 2) {
        e.alloc(40);
        e.dealloc();
        e.reuse();
      }
      e.with([&] { e.r->~stack_resource(); });
      CHECK(e.chunks.empty());
      CHECK(m.chunks == before);
      std::free((void*)m.r);
      m.r = n;
      m.intact();
    } else if (moves && k < 99) {
      auto before = m.chunks;
      model t;
      size_t tn = kvc::rnd() % 200;
      t.buf = (char*)std::malloc(tn + 1);
      t.bufn = tn;
      stack_resource* tr = (stack_resource*)std::malloc(sizeof(stack_resource));
      new (tr) stack_resource(std::span<unsigned char>((unsigned char*)t.buf, tn));
      t.r = tr;
      for (unsigned j = kvc::rnd() % 6; j--;)
        t.alloc(kvc::rnd() % 900);
      for (unsigned j = kvc::rnd() % 6; j-- && !t.live.empty();)
        t.dealloc();
      auto all = m.chunks;
      for (auto& c : t.chunks)
        all.insert(c);
      auto gone = t.chunks;
      g_chunks = &all;
      g_in = true;
      *t.r = std::move(*m.r);
      g_in = false;
      CHECK(all == before);
      model e;
      e.r = m.r;
      e.with([&] { e.r->~stack_resource(); });
      CHECK(e.chunks.empty());
      std::free((void*)m.r);
      std::free(t.buf);
      m.r = t.r;
      m.intact();
    }
  }
  m.intact();
  m.with([&] { m.r->~stack_resource(); });
  CHECK(m.chunks.empty());
  std::free((void*)m.r);
  std::free(m.buf);
}
