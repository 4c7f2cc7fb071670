// REPLAY-VARIANTS: asan, tsan
#include "whenx.hpp"
template <typename F>
static co owner3(task<std::tuple<expected<own, std::exception_ptr>, expected<int, std::exception_ptr>, expected<void, std::exception_ptr>>> t, slot* s, std::atomic<int>& done, F) {
  {
    auto x = std::move(t);
    auto r = co_await x;
    CHECK(std::get<0>(r).has_value() || true);
    CHECK(s[0].ended == 1 && s[1].ended == 1 && s[2].ended == 1);
    CHECK(is(std::get<0>(r), s[0].thr, 7));
    CHECK(is(std::get<1>(r), s[1].thr, 8));
    CHECK(is(std::get<2>(r), s[2].thr, 9));
  }
  done.fetch_add(1);
}
template <typename T>
static co ownerv(task<std::vector<expected<T, std::exception_ptr>>> t, slot* s, size_t n, std::atomic<int>& done) {
  {
    auto x = std::move(t);
    auto r = co_await x;
    CHECK(r.size() == n);
    for (size_t i = 0; i < n; ++i) {
      CHECK(s[i].ended == 1);
      CHECK(is(r[i], s[i].thr, 10 + (int)i));
    }
  }
  done.fetch_add(1);
}
static void pattern(slot* s, int n) {
  for (int i = 0; i < n; ++i) {
    s[i].gated = kvc::rnd() % 3 != 0;
    s[i].thr = kvc::rnd() % 3 == 0;
  }
}
static void run(co o, slot* s, int n, std::atomic<int>& done) {
  bool seq = kvc::rnd() % 3 == 0;
  std::vector<std::thread> th;
  if (!seq)
    for (int i = 0; i < n; ++i)
      if (s[i].gated)
        th.emplace_back([&, i] { s[i].go(); });
  o.h.resume();
  if (seq) {
    std::vector<int> ord;
    for (int i = 0; i < n; ++i)
      if (s[i].gated)
        ord.push_back(i);
    for (size_t i = ord.size(); i > 1; --i)
      std::swap(ord[i - 1], ord[kvc::rnd() % i]);
    for (int i : ord) {
      CHECK(done == 0);
      s[i].go();
    }
  }
  for (auto& t : th)
    t.join();
  CHECK(done == 1);
  for (int i = 0; i < n; ++i)
    CHECK(s[i].begun == 1);
  o.h.destroy();
}
SCENARIO(pack, 1500) {
  slot s[3];
  std::atomic<int> done{0};
  pattern(s, 3);
  run(owner3(when_all(kid<own>(s[0], 7), kid<int>(s[1], 8), kid<void>(s[2], 9)), s, done, 0), s, 3, done);
}
template <typename T>
static void vec() {
  slot s[5];
  int n = kvc::rnd() % 6;
  std::atomic<int> done{0};
  pattern(s, n);
  std::vector<task<T>> v;
  for (int i = 0; i < n; ++i)
    v.push_back(kid<T>(s[i], 10 + i));
  run(ownerv<T>(when_all(std::move(v)), s, n, done), s, n, done);
}
SCENARIO(vec_int, 800) { vec<int>(); }
SCENARIO(vec_own, 800) { vec<own>(); }
SCENARIO(vec_void, 800) { vec<void>(); }
