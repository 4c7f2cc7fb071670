// sequential replay batteries: random histories against a reference
#pragma once
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <utility>
#include <memory>
#include <vector>
#include <string>
#include <atomic>
#include <optional>
#include <coroutine>
#include <exception>
#include <random>
namespace kvc {
inline unsigned g_seed;
inline std::mt19937 g_rng;
inline unsigned rnd() { return g_rng(); }
[[noreturn]] inline void die(const char* what) {
  std::printf("violated: %s (history seed %u)\n", what, g_seed);
  std::fflush(stdout);
  std::_Exit(97);
}
struct scen {
  const char* n;
  unsigned reps;
  void (*f)();
};
inline std::vector<scen>& scens() {
  static std::vector<scen> v;
  return v;
}
struct reg {
  reg(const char* n, unsigned reps, void (*f)()) { scens().push_back({n, reps, f}); }
};
}  // namespace kvc
#define KVC_STR2(x) #x
#define KVC_STR(x) KVC_STR2(x)
#define CHECK(c) ((c) ? (void)0 : kvc::die(#c " at line " KVC_STR(__LINE__)))
#define SCENARIO(n, reps)                       \
  static void scen_##n();                       \
  static kvc::reg reg_##n(#n, reps, &scen_##n); \
  static void scen_##n()
int main(int argc, char** argv) {
  if (argc > 1 && !std::strcmp(argv[1], "--list")) {
    for (auto& s : kvc::scens())
      std::puts(s.n);
    return 0;
  }
  for (auto& s : kvc::scens())
    if (argc < 2 || !std::strcmp(argv[1], s.n))
      for (unsigned i = 0; i < s.reps; ++i) {
        kvc::g_seed = i;
        kvc::g_rng.seed(i);
        s.f();
      }
}
