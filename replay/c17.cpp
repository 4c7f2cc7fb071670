// REPLAY-VARIANTS: asan, tsan
#include "whenx.hpp"
using R3 = std::variant<std::monostate, expected<own, std::exception_ptr>, expected<int, std::exception_ptr>, expected<void, std::exception_ptr>>;
struct out {
  std::atomic<int> done{0};
  int idx = -1;
};
static co owner3(task<R3> t, slot* s, out& o, bool keep, std::atomic<void*>& k) {
  {
    auto x = std::move(t);
    R3 r = co_await x;
    int i = (int)r.index() - 1;
    CHECK(i >= 0 && i < 3);
    CHECK(s[i].ended == 1);
    if (i == 0)
      CHECK(is(std::get<1>(r), s[0].thr, 7));
    if (i == 1)
      CHECK(is(std::get<2>(r), s[1].thr, 8));
    if (i == 2)
      CHECK(is(std::get<3>(r), s[2].thr, 9));
    if (s[i].thr)
      CHECK(s[0].thr && s[1].thr && s[2].thr && s[0].ended == 1 && s[1].ended == 1 && s[2].ended == 1);
    o.idx = i;
    if (keep)
      co_await xgate{k};
  }
  o.done.fetch_add(1);
}
SCENARIO(pack, 2500) {
  slot s[3];
  out o;
  std::atomic<void*> k{nullptr};
  int fail = kvc::rnd() % 4;
  for (int i = 0; i < 3; ++i) {
    s[i].gated = kvc::rnd() % 4 != 0;
    s[i].thr = fail == 0 || kvc::rnd() % 2;
  }
  bool keep = kvc::rnd() % 3 == 0, abandon = kvc::rnd() % 6 == 0, seq = kvc::rnd() % 3 == 0;
  co c = owner3(when_any(kid<own>(s[0], 7), kid<int>(s[1], 8), kid<void>(s[2], 9)), s, o, keep, k);
  if (seq || abandon) {
    std::vector<int> ord, fin;
    for (int i = 0; i < 3; ++i)
      if (s[i].gated)
        ord.push_back(i);
      else
        fin.push_back(i);
    for (size_t i = ord.size(); i > 1; --i)
      std::swap(ord[i - 1], ord[kvc::rnd() % i]);
    size_t cut = abandon ? kvc::rnd() % (ord.size() + 1) : 99;
    c.h.resume();
    bool gone = false;
    auto want = [&]() -> int {
      for (int i : fin)
        if (!s[i].thr)
          return i;
      return fin.size() == 3 ? fin[2] : -1;
    };
    for (size_t j = 0; j <= ord.size(); ++j) {
      int w = want();
      if (!gone)
        CHECK(o.idx == w);
      if (j == cut && !gone && w < 0) {
        gone = true;
        c.h.destroy();
      }
      if (j < ord.size()) {
        if (s[ord[j]].h.load())
          s[ord[j]].go();
        else
          CHECK(gone || want() >= 0);
        fin.push_back(ord[j]);
      }
    }
    if (gone) {
      CHECK(o.idx == -1);
      return;
    }
  } else {
    std::vector<std::thread> th;
    for (int i = 0; i < 3; ++i)
      if (s[i].gated)
        th.emplace_back([&, i] { s[i].go(); });
    c.h.resume();
    for (auto& t : th)
      t.join();
  }
  CHECK(o.idx >= 0);
  if (keep)
    std::coroutine_handle<>::from_address(k.load()).resume();
  CHECK(o.done == 1);
  for (int i = 0; i < 3; ++i)
    CHECK(s[i].begun <= 1);
  c.h.destroy();
}
