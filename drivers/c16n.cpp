// FLAGS: -DNDEBUG
#include "gate.hpp"
#include <kelcoro/algorithm.hpp>
using namespace dd;
extern "C" {
#define VEC(N, T)                                                       \
  void* drv_start_##N(std::vector<task<T>>* v) {                        \
    auto t = when_all(std::move(*v));                                   \
    return t.release().address();                                       \
  }
VEC(int, int)
VEC(void, void)
}
