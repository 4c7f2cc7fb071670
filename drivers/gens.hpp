// bodies shared by the generator and channel drivers; GEN is dd::generator or dd::channel.
// What a body does is decided by the environment (ext_op), every body instance has an id of its own.
#pragma once
#include "gate.hpp"
extern "C" {
int ext_op(int id) noexcept;       // next operation of body `id`
int ext_arg(int id) noexcept;      // its operand: id of the nested body
int ext_cnt(int id) noexcept;      // operand: how many elements to consume beforehand
int ext_yield(int id) noexcept;    // the next value
void ext_saw(int id, int) noexcept;   // what the body finds in its variable when it is resumed after a yield
void ext_pre(int id, int) noexcept;   // the body consumed an element of a nested range itself
void ext_preend(int id) noexcept;
void ext_throw(int id);
void ext_gone(int id) noexcept;  // the locals of body `id` are destroyed
void ext_ran(int id) noexcept;
void** ext_gate(int id) noexcept;  // where body `id` leaves its handle when it suspends
void* ext_unit() noexcept;
}
struct live {  // a body local, owns memory
  int id;
  own o{1};
  ~live() { ext_gone(id); }
};
struct stateless {  // memory resource without state
  static void* allocate(size_t n) { return new char[n]; }
  static void deallocate(void* p, size_t) noexcept { delete[] static_cast<char*>(p); }
};
struct stateful {
  int tag = 1;
  stateful() = default;
  stateful(stateful&&) noexcept = default;
  void* allocate(size_t n) { return new char[n]; }
  void deallocate(void* p, size_t) noexcept { delete[] static_cast<char*>(p); }
};
#define BODY_OPS(T, MK)                                                          \
  case 1: co_yield ext_yield(id); ext_ran(id); break;                            \
  case 2: {                                                                      \
    const int x = ext_yield(id);                                                 \
    co_yield x;                                                                  \
    ext_saw(id, x);                                                              \
    break;                                                                       \
  }                                                                              \
  case 3: {                                                                      \
    int x = ext_yield(id);                                                       \
    co_yield dd::by_ref{x};                                                      \
    ext_saw(id, x);                                                              \
    break;                                                                       \
  }                                                                              \
  case 13: {                                                                     \
    int x = ext_yield(id);                                                       \
    co_yield x;                                                                  \
    ext_saw(id, x);                                                              \
    break;                                                                       \
  }                                                                              \
  case 4: ext_throw(id); break;                                                  \
  case 5: co_yield dd::elements_of(body(ext_arg(id))); ext_ran(id); break;       \
  case 6: {                                                                      \
    auto s = body(ext_arg(id));                                                  \
    CONSUME(s, ext_cnt(id));                                                     \
    co_yield dd::elements_of(s);                                                 \
    ext_ran(id);                                                                 \
    break;                                                                       \
  }                                                                              \
  case 12: {                                                                     \
    auto s = body(ext_arg(id));                                                  \
    CONSUME(s, ext_cnt(id));                                                     \
    co_yield dd::elements_of(std::move(s));                                      \
    ext_ran(id);                                                                 \
    break;                                                                       \
  }                                                                              \
  case 7: {                                                                      \
    int a[2] = {ext_yield(id), ext_yield(id)};                                   \
    co_yield dd::elements_of(a);                                                 \
    ext_saw(id, a[0]);                                                           \
    ext_saw(id, a[1]);                                                           \
    break;                                                                       \
  }                                                                              \
  case 8: co_yield dd::elements_of(GEN<int>{}); ext_ran(id); break;              \
  case 9: co_yield dd::elements_of(rbody(ext_arg(id))); ext_ran(id); break;      \
  case 10: co_yield dd::elements_of(sbody(ext_arg(id), stateful{})); ext_ran(id); break; \
  case 11: co_yield dd::elements_of(shorts(ext_arg(id))); ext_ran(id); break;
GEN<int> body(int id);
GEN_R<int, stateless> rbody(int id);
GEN<int> sbody(int id, dd::with_resource<stateful>);
GEN<short> shorts(int id) {
  live l{id};
  for (;;) switch (ext_op(id)) {
      case 1: co_yield (short)ext_yield(id); ext_ran(id); break;
      case 4: ext_throw(id); break;
      default: co_return;
    }
}
GEN<int> body(int id) {
  live l{id};
  for (;;) switch (ext_op(id)) {
      BODY_OPS(int, body)
      EXTRA_OPS
      default: co_return;
    }
}
GEN_R<int, stateless> rbody(int id) {
  live l{id};
  for (;;) switch (ext_op(id)) {
      BODY_OPS(int, body)
      EXTRA_OPS
      default: co_return;
    }
}
GEN<int> sbody(int id, dd::with_resource<stateful>) {
  live l{id};
  for (;;) switch (ext_op(id)) {
      BODY_OPS(int, body)
      EXTRA_OPS
      default: co_return;
    }
}
// yields references
GEN<int&> refs(int id) {
  live l{id};
  for (;;) switch (ext_op(id)) {
      case 3: {
        int x = ext_yield(id);
        co_yield x;
        ext_saw(id, x);
        break;
      }
      case 14: {
        int x = ext_yield(id);
        co_yield dd::by_ref{x};
        ext_saw(id, x);
        break;
      }
      case 4: ext_throw(id); break;
      case 5: co_yield dd::elements_of(refs(ext_arg(id))); ext_ran(id); break;
      case 6: {
        auto s = refs(ext_arg(id));
        CONSUME(s, ext_cnt(id));
        co_yield dd::elements_of(s);
        ext_ran(id);
        break;
      }
      EXTRA_OPS
      default: co_return;
    }
}
// yields a movable-only class
GEN<own> owns(int id) {
  live l{id};
  for (;;) switch (ext_op(id)) {
      case 1: co_yield own(ext_yield(id)); ext_ran(id); break;
      case 3: {
        own x(ext_yield(id));
        co_yield dd::by_ref{x};
        ext_saw(id, x.p ? *x.p : -1);
        break;
      }
      case 14: {
        own x(ext_yield(id));
        co_yield std::move(x);
        ext_saw(id, x.p ? *x.p : -1);
        break;
      }
      case 4: ext_throw(id); break;
      case 5: co_yield dd::elements_of(owns(ext_arg(id))); ext_ran(id); break;
      EXTRA_OPS
      default: co_return;
    }
}
