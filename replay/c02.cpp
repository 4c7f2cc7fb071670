// REPLAY-VARIANTS: asan
#include "stack.hpp"
SCENARIO(short_histories, 4000) { history(14, true); }
SCENARIO(long_histories, 150) { history(400, true); }
// reclaiming is LIFO deallocation of everything
SCENARIO(reclaim, 500) {
  model m;
  size_t bn = kvc::rnd() % 300;
  m.buf = (char*)std::malloc(bn + 1);
  m.bufn = bn;
  stack_resource r(std::span<unsigned char>((unsigned char*)m.buf, bn));
  m.r = &r;
  for (int k = 0; k < 4; ++k) {
    for (unsigned j = kvc::rnd() % 10; j--;)
      m.alloc(kvc::rnd() % 400);
    m.intact();
    m.reuse();
    size_t n = bn ? kvc::rnd() % (bn / 16 * 16 + 1) : 0;
    m.alloc(n);
    if (n)
      CHECK(m.in(m.live.back().p, n) == m.buf);
  }
  m.with([&] { r = stack_resource(); });
  CHECK(m.chunks.empty());
  std::free(m.buf);
}
