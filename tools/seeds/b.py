FREE='-fsanitize=thread -DKVC_FREE -DNDEBUG'
SEEDS=[
dict(id='stk-freelist-fit',prop='C01',edits=[('stack_memory_resource.hpp','''        if (c->capacity() >= bytes) {''','''        // (the header of a chunk is part of its memory)
        if (c->capacity() + sizeof(chunk_header) >= bytes) {''')],
needs='a free chunk that is up to 32 bytes smaller than the next block that does not fit into the current chunk',
breaks='a free chunk is taken for a block it cannot hold, the block reaches beyond the end of the heap chunk',
demo=r'''
#include <cstring>
#include <cstdio>
#include <kelcoro/stack_memory_resource.hpp>
int main() {
  for (size_t n = 16; n <= 4096; n += 16) {
    alignas(16) unsigned char buf[64];
    dd::stack_resource r(std::span<unsigned char>(buf, sizeof(buf)));
    void* p = r.allocate(80);  // a chunk of its own
    memset(p, 1, 80);
    r.deallocate(p, 80);
    void* q = r.allocate(16);  // (the initial buffer or the chunk)
    memset(q, 2, 16);
    void* s = r.allocate(n);
    memset(s, 3, n);
    for (int i = 0; i < 16; ++i)
      if (((unsigned char*)q)[i] != 2)
        return puts("overlap"), 1;
    r.deallocate(s, n);
    r.deallocate(q, 16);
    r.reuse_memory();
    void* t = r.allocate(n);
    memset(t, 4, n);
    r.deallocate(t, n);
  }
}
'''),
dict(id='stk-push-sorted',prop='C02',edits=[('stack_memory_resource.hpp','''      chunk->freelist_next = top;
      top = chunk;''','''      // keep the largest chunk on top, 'take_atleast' finds it first
      if (top && chunk->capacity() < top->capacity()) {
        top->freelist_next = std::exchange(chunk->freelist_next, top->freelist_next);
        return;
      }
      chunk->freelist_next = top;
      top = chunk;''')],
needs='a chunk that becomes free while a larger one is free already',
breaks='the smaller chunk is not linked into the free list: it is neither used again nor given back',
demo=r'''
#include <cstdio>
#include <kelcoro/stack_memory_resource.hpp>
int main() {
  dd::stack_resource r;
  void* p[4];
  for (size_t i = 0; i < 4; ++i)
    p[i] = r.allocate(1000u << (2 * i));
  for (size_t i = 4; i-- > 0;)
    r.deallocate(p[i], 1000u << (2 * i));
  for (size_t i = 0; i < 4; ++i)
    p[i] = r.allocate(1000u << (2 * i));
  r.reuse_memory();
}
'''),
dict(id='res-pad-after',prop='C03',edits=[('memory_support.hpp','''      frame_sz += noexport::padding_len<alignof(R)>(frame_sz);
      std::byte* p = (std::byte*)r.allocate(frame_sz + sizeof(R));
      new''','''      std::byte* p = (std::byte*)r.allocate(frame_sz + sizeof(R));
      frame_sz += noexport::padding_len<alignof(R)>(frame_sz);
      new''')],
needs='a resource aligned to 16 bytes and a coroutine frame whose size is not a multiple of 16',
breaks='too little memory is asked for, the kept copy of the resource reaches beyond the block, which is given back with another size',
demo=r'''
#include <cstdio>
#include <cstdlib>
#include <map>
#include <ranges>
#include <utility>
#include <kelcoro/generator.hpp>
static std::map<void*, size_t> live;
static int bad = 0;
struct alignas(16) res {
  long x[2] = {1, 2};
  void* allocate(size_t n) {
    void* p = aligned_alloc(16, (n + 15) & ~15ull);
    live[p] = n;
    return p;
  }
  void deallocate(void* p, size_t n) noexcept {
    if (!live.count(p) || live[p] != n || x[0] != 1 || x[1] != 2)
      ++bad, printf("block of %zu bytes returned as %zu\n", live[p], n);
    live.erase(p);
    free(p);
  }
};
template <size_t N>
struct loc {
  unsigned char c[N] = {};
};
template <size_t N>
static dd::generator<int> g(loc<N> l, dd::with_resource<res>) {
  for (size_t i = 0; i < N; i += 8)
    co_yield l.c[i] + 1;
}
template <size_t N>
static void run() {
  int n = 0;
  auto x = g<N>(loc<N>{}, dd::with_resource<res>());
  for (int i : x)
    n += i;
  if (n != (N + 7) / 8)
    ++bad;
}
int main() {
  [&]<size_t... I>(std::index_sequence<I...>) { (run<I * 4 + 4>(), ...); }(std::make_index_sequence<24>{});
  return bad != 0 || !live.empty();
}
'''),
dict(id='pmr-set-default',prop='C04',edits=[('memory_support.hpp','''  return *polymorphic_resource::default_resource().exchange(&r, std::memory_order_acq_rel);''','''  std::pmr::memory_resource& old = get_default_resource();
  polymorphic_resource::default_resource().store(&r, std::memory_order_release);
  return old;''')],
needs='two threads setting the default resource at the same time',
breaks='both are told the same previous resource and one of the resources set is never returned to anyone',
demo=r'''
#include "sched.hpp"
#include <kelcoro/memory_support.hpp>
using namespace dd::pmr;
struct R : std::pmr::memory_resource {
  void* do_allocate(size_t n, size_t) override { return malloc(n); }
  void do_deallocate(void* p, size_t, size_t) override { free(p); }
  bool do_is_equal(const memory_resource& o) const noexcept override { return this == &o; }
};
SCENARIO(race, 300) {
  static R a, b;
  auto& first = get_default_resource();
  std::pmr::memory_resource *x, *y;
  {
    std::thread t([&] { x = &set_default_resource(a); });
    std::thread u([&] { y = &set_default_resource(b); });
    t.join(), u.join();
  }
  auto& last = set_default_resource(first);
  CHECK((x == &first && y == &a && &last == &b) || (y == &first && x == &b && &last == &a));
}
'''),
dict(id='strand-mask',prop='C08',edits=[('thread_pool.hpp','''    return strand(select_queue(op_hash));''','''    return strand(queues[op_hash & (queues.size() - 1)]);''')],
needs='a pool whose size is no power of two',
breaks='a strand for a hash pushes to another worker than tasks with that hash',
demo=r'''
#include <cstdio>
#include <memory>
#include <utility>
#include <kelcoro/thread_pool.hpp>
int main() {
  for (size_t n = 1; n <= 6; ++n) {
    dd::thread_pool p(n);
    for (size_t h = 0; h < 20; ++h)
      if (&p.get_strand(h).get_queue() != &p.select_queue(h))
        return printf("%zu threads, hash %zu\n", n, h), 1;
  }
}
'''),
dict(id='stack-push-relaxed',prop='C09',edits=[('nonowner_lockfree_stack.hpp','''    while (!top.compare_exchange_weak(last->next, other_top, acq_rel, acquire)) {''','''    while (!top.compare_exchange_weak(last->next, other_top, acquire, acquire)) {''')],
needs='a thread that takes the nodes pushed as a list by another thread',
breaks='the pushed list is published without release: what its pusher wrote to the nodes is not visible to the taker',
flags=FREE,
demo=r'''
#include "sched.hpp"
#include <kelcoro/nonowner_lockfree_stack.hpp>
struct node {
  node* next = nullptr;
  int value = 0;
};
struct st : dd::nonowner_lockfree_stack<node> {};
SCENARIO(race, 300) {
  st s;
  node n[2];
  std::thread a([&] {
    n[0].value = 1, n[1].value = 2;
    n[0].next = &n[1];
    s.push_stack(&n[0]);
  });
  int sum = 0;
  for (int left = 2; left;)
    for (node* x = s.try_pop_all(); x; x = x->next)
      sum += x->value, --left;
  a.join();
  CHECK(sum == 3);
}
'''),
dict(id='async-count-first',prop='C13',edits=[('async_task.hpp','''      p.ready.exchange(true, std::memory_order::acq_rel);
      p.ready.notify_one();
      // continue and destroy if ref count == 0
      bool im_last_owner = p.ref_count.fetch_sub(1, std::memory_order::acq_rel) == 1;
      return !im_last_owner;''','''      // continue and destroy if ref count == 0
      if (p.ref_count.fetch_sub(1, std::memory_order::acq_rel) == 1)
        return false;
      // someone may wait
      p.ready.exchange(true, std::memory_order::acq_rel);
      p.ready.notify_one();
      return true;''')],
needs='the owner lets go between the two steps of the finishing coroutine',
breaks='the frame is touched after it was destroyed by the owner',
demo=r'''
#include "sched.hpp"
#include <kelcoro/async_task.hpp>
using namespace dd;
static async_task<int> work(std::coroutine_handle<>& h) {
  co_await this_coro::suspend_and([&](std::coroutine_handle<> x) { h = x; });
  co_return 7;
}
SCENARIO(race, 3000) {
  std::coroutine_handle<> h;
  async_task<int> t = work(h);
  std::thread a([&] { h.resume(); });
  t.detach();
  a.join();
}
'''),
dict(id='bound-check-first',prop='C14',edits=[('logical_thread.hpp','''    bool informed = !flag.exchange(true, std::memory_order::acq_rel);
    if (informed)
      flag.notify_one();
    return informed;''','''    // do not write the shared line when the other side is gone
    if (flag.load(std::memory_order::acquire))
      return false;
    flag.store(true, std::memory_order::release);
    flag.notify_one();
    return true;''')],
needs='a logical thread that finishes while its owner detaches it',
breaks='each side thinks that the other one destroys the frame, so nobody does',
demo=r'''
#include "sched.hpp"
#include <kelcoro/logical_thread.hpp>
using namespace dd;
struct obj {
  int* n;
  explicit obj(int* n) : n(n) { ++*n; }
  ~obj() { --*n; }
};
static logical_thread work(std::coroutine_handle<>& h, std::shared_ptr<int> keep) {
  co_await this_coro::suspend_and([&](std::coroutine_handle<> x) { h = x; });
}
SCENARIO(race, 3000) {
  std::coroutine_handle<> h;
  auto keep = std::make_shared<int>(1);
  logical_thread t = work(h, keep);
  std::thread a([&] { h.resume(); });
  t.detach();
  a.join();
  CHECK(keep.use_count() == 1);
}
'''),
dict(id='task-rethrow-once',prop='C15',edits=[('task.hpp','''    if (exception) [[unlikely]]
      std::rethrow_exception(exception);''','''    if (exception) [[unlikely]]
      std::rethrow_exception(std::exchange(exception, nullptr));''')],
needs='a finished task that failed is awaited a second time',
breaks='the second awaiter does not get the exception but a result that was never returned',
demo=r'''
#include <atomic>
#include <memory>
#include <utility>
#include <ranges>
#include <cstdio>
#include <stdexcept>
#include <string>
#include <kelcoro/task.hpp>
#include <kelcoro/job.hpp>
using namespace dd;
static task<int> fail() {
  throw std::runtime_error("x");
  co_return 1;
}
static task<int> user(task<int>& t, int& caught) {
  for (int i = 0; i < 3; ++i) {
    try {
      (void)co_await t;
    } catch (std::runtime_error&) {
      ++caught;
    }
  }
  co_return 0;
}
int main() {
  task<int> t = fail();
  int caught = 0;
  user(t, caught).start_and_detach();
  return caught != 3;
}
'''),
dict(id='when-all-size-reread',prop='C16',edits=[('algorithm.hpp','''    size_t i = 0;
    for (auto& task : tasks)
      noexport::job_for_when_all(task, when_all_handle, results[i++], count);''','''    for (size_t i = 0; i < tasks.size(); ++i)
      noexport::job_for_when_all(tasks[i], when_all_handle, results[i], count);''')],
needs='children that finish before when_all has started the last one, and an owner that destroys the when_all as soon as it has the results',
breaks='the starting loop looks at the vector of tasks after the last child has handed control back and the frame is gone',
demo=r'''
#include <algorithm>
#include <atomic>
#include <cstdio>
#include <memory>
#include <utility>
#include <mutex>
#include <ranges>
#include <tuple>
#include <vector>
#include <kelcoro/algorithm.hpp>
using namespace dd;
static task<int> now(int i) {
  co_return i;
}
static task<int> user(int& sum) {
  std::vector<task<int>> v;
  for (int i = 0; i < 5; ++i)
    v.push_back(now(i));
  auto r = co_await when_all(std::move(v));
  for (auto& x : r)
    sum += *x;
  co_return 0;
}
int main() {
  int sum = 0;
  user(sum).start_and_detach();
  return sum != 10;
}
'''),
dict(id='when-any-check-outside',prop='C17',edits=[('algorithm.hpp','''    static_assert(I != 0);
    std::lock_guard l(mtx);
    if (!owner)
      return nullptr;
    result''','''    static_assert(I != 0);
    if (!owner)
      return nullptr;
    std::lock_guard l(mtx);
    result''')],
needs='two children that succeed at the same time on different threads',
breaks='the later success replaces the outcome of the first one, which may be read by the owner at that moment',
demo=r'''
#include "sched.hpp"
#include <kelcoro/algorithm.hpp>
using namespace dd;
using S = noexport::when_any_state<int, int>;
SCENARIO(race, 2000) {
  S s(2, std::noop_coroutine());
  std::coroutine_handle<> a, b;
  std::thread t([&] { a = s.set_result<1>(1); });
  std::thread u([&] { b = s.set_result<2>(2); });
  t.join(), u.join();
  CHECK(!a != !b);
  CHECK(s.result.index() == (a ? 1 : 2));
}
'''),
dict(id='gen-attach-top',prop='C18',edits=[('noexport/generators_common.hpp','''    root_p.current_worker = leaf_p.current_worker;
    return leaf_p.current_worker;''','''    root_p.current_worker = leaf.top;
    return leaf.top;''')],
needs='a generator that stands inside a nested generator of its own is yielded into another one',
breaks='the yielded generator is resumed at its outer level, the rest of the nested one comes out of order or is lost',
demo=r'''
#include <ranges>
#include <vector>
#include <cstdio>
#include <kelcoro/generator.hpp>
using namespace dd;
static generator<int> leaf() {
  for (int i = 1; i <= 3; ++i)
    co_yield i;
}
static generator<int> mid() {
  co_yield elements_of(leaf());
  co_yield 10;
}
static generator<int> outer(generator<int> m) {
  co_yield 0;
  co_yield elements_of(std::move(m));
  co_yield 20;
}
int main() {
  generator<int> m = mid();
  auto it = m.begin();
  if (*it != 1)
    return 1;
  std::vector<int> v;
  for (int i : outer(std::move(m)))
    v.push_back(i);
  return v != std::vector<int>{0, 2, 3, 10, 20};
}
'''),
dict(id='chan-swap-exception',prop='C19',edits=[('channel.hpp','''    std::swap(top, other.top);
    std::swap(exception, other.exception);''','''    std::swap(top, other.top);
    if (other.exception)
      exception = std::move(other.exception);''')],
needs='two channels are swapped (or one assigned) while the exception of the left one has not been taken yet',
breaks='the exception stays with the wrong channel or is lost',
demo=r'''
#include <atomic>
#include <memory>
#include <utility>
#include <ranges>
#include <vector>
#include <cstdio>
#include <stdexcept>
#include <kelcoro/channel.hpp>
#include <kelcoro/job.hpp>
using namespace dd;
static channel<int> bad() {
  co_yield 1;
  throw std::runtime_error("x");
}
static channel<int> good() {
  co_yield 2;
  co_yield 3;
}
static job user(int& ok) {
  channel<int> a = bad(), b = good();
  int* p = co_await a.next();
  if (!p || *p != 1)
    co_return;
  p = co_await a.next();
  if (p)
    co_return;
  a.swap(b);
  if (a.take_exception() != nullptr)
    co_return;
  p = co_await a.next();
  if (!p || *p != 2)
    co_return;
  if (b.take_exception() == nullptr)
    co_return;
  ok = 1;
}
int main() {
  int ok = 0;
  user(ok);
  return !ok;
}
'''),
dict(id='inplace-end-nodestroy',prop='C20',edits=[('inplace_generator.hpp','''    // assume not allocates (noexcept)
    other.top = empty_generator().handle;''','''    // one empty frame is enough for all of them
    other.top = empty_frame();'''),('inplace_generator.hpp','''    co_return;
  }

 public:
  // should be used only from get_return_object''','''    co_return;
  }
  static handle_type empty_frame() noexcept {
    static const handle_type frame = empty_generator().handle;
    return frame;
  }

 public:
  // should be used only from get_return_object'''),('inplace_generator.hpp','''    top.destroy();
  }''','''    // (a finished one may be the common empty frame)
    if (!top.done())
      top.destroy();
  }''')],
needs='an inplace generator that is iterated to its end and whose frame was allocated',
breaks='the frame of a finished inplace generator is never destroyed',
demo=r'''
#include <memory>
#include <utility>
#include <ranges>
#include <cstdio>
#include <kelcoro/inplace_generator.hpp>
using namespace dd;
__attribute__((noinline)) static inplace_generator<int> gen(std::shared_ptr<int> keep, int n) {
  for (int i = 0; i < n; ++i)
    co_yield i;
}
int main() {
  auto keep = std::make_shared<int>(1);
  for (int n = 0; n < 4; ++n) {
    auto g = gen(keep, n);
    int k = 0;
    for (int i : g)
      if (i != k++)
        return 1;
    if (k != n)
      return 1;
    auto h = std::move(g);
    for (int i : g)
      return 1;
  }
  return keep.use_count() != 1;
}
'''),
dict(id='this-thread-reuse',prop='C21',edits=[('executor_interface.hpp','''  static void attach(task_node* node) {
    node->task.resume();
  }
};
constexpr inline this_thread''','''  static void attach(task_node* node) {
    node->task.resume();
    // executed, node is ready to be used again
    node->task = nullptr;
  }
};
constexpr inline this_thread''')],
needs='a coroutine that jumps to this_thread_executor and does not suspend again before its frame (with the node) is gone, or uses the node again',
breaks='the node is written after the coroutine it belongs to was resumed',
demo=r'''
#include <atomic>
#include <memory>
#include <utility>
#include <cstdio>
#include <kelcoro/job.hpp>
#include <kelcoro/executor_interface.hpp>
static dd::job one(int& n) {
  auto st = co_await dd::jump_on(dd::this_thread_executor);
  n += !!st;
}
int main() {
  int n = 0;
  for (int i = 0; i < 3; ++i)
    one(n);
  return n != 3;
}
'''),
dict(id='retref-addressof',prop='C22',edits=[('common.hpp','''    storage = std::addressof(value);
  }''','''    storage = &value;
  }''')],
needs='a task that returns a reference to an object whose class overloads operator&',
breaks='the consumer gets a reference to another object than the returned one',
demo=r'''
#include <atomic>
#include <memory>
#include <utility>
#include <ranges>
#include <cstdio>
#include <kelcoro/task.hpp>
using namespace dd;
struct X {
  X* inner = nullptr;
  X* operator&() { return inner; }
};
static task<X&> get(X& x) {
  co_return x;
}
static task<int> user(X& x, bool& ok) {
  X& r = co_await get(x);
  ok = std::addressof(r) == std::addressof(x);
  co_return 0;
}
int main() {
  X a, b;
  a.inner = std::addressof(b);
  bool ok = false;
  user(a, ok).start_and_detach();
  return !ok;
}
'''),
]
