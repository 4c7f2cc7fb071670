# behaviour-preserving edits (development aid): every check must stay quiet on each of them
R=[
('queue-helper',['C05','C06','C07','C08'],[('thread_pool.hpp','''    std::lock_guard l{mtx};
    if (first) {
      last->next = first_;
      last = last_;
    } else {
      first = first_;
      last = last_;
      // notify''','''    std::lock_guard l{mtx};
    const bool was_empty = !first;
    if (was_empty)
      first = first_;
    else
      last->next = first_;
    last = last_;
    if (was_empty) {
      // notify''')]),
('queue-pop-swap',['C05','C07'],[('thread_pool.hpp','''    task_node* tasks;
    {
      std::lock_guard l(mtx);
      tasks = pop_all_nolock();
    }
    return tasks;''','''    std::lock_guard l(mtx);
    return pop_all_nolock();'''),('thread_pool.hpp','return std::exchange(first, nullptr);','''task_node* all = first;
    first = nullptr;
    last = nullptr;
    return all;''')]),
('queue-wait-pred',['C05'],[('thread_pool.hpp','''      while (!first)
        not_empty.wait(l);''','''      not_empty.wait(l, [this] { return first != nullptr; });''')]),
('queue-notify-all',['C05'],[('thread_pool.hpp','not_empty.notify_one();','not_empty.notify_all();')]),
('queue-fields',['C05','C06','C07','C08','C04'],[('thread_pool.hpp','''  task_node* first = nullptr;
  // if !first, 'last' value unspecified
  // if first, then 'last' present too
  task_node* last = nullptr;
  std::mutex mtx;
  std::condition_variable not_empty;''','''  std::mutex mtx;
  std::condition_variable not_empty;
  task_node* first = nullptr;
  // if !first, 'last' value unspecified
  // if first, then 'last' present too
  task_node* last = nullptr;''')]),
('queue-find-last',['C05','C09'],[('thread_pool.hpp','''    auto last_ = first_;
    while (last_->next)
      last_ = last_->next;
    push_list(first_, last_);
  }
''','''    push_list(first_, find_last(first_));
  }

 private:
  static task_node* find_last(task_node* n) noexcept {
    for (; n->next; n = n->next)
      ;
    return n;
  }

 public:
''')]),
('cancel-while',['C06','C07'],[('thread_pool.hpp','''  while (top) {
    // if this task is the final one, then the work must be completed.
    // after resume top deleted
    std::coroutine_handle task = top->task;
    top->status = schedule_errc::cancelled;
    top = top->next;
    if (task)
      task.resume();
  }''','''  for (task_node* cur = top; cur != nullptr;) {
    task_node& node = *cur;
    cur = node.next;
    node.status = schedule_errc::cancelled;
    if (std::coroutine_handle task = node.task; task)
      task.resume();
  }''')]),
('worker-loop',['C06','C07'],[('thread_pool.hpp','''  task_node* top;
  std::coroutine_handle task;
  for (;;) {
    top = queue.pop_all_not_empty();
    assert(top);
    do {
      // grab task from memory which will be invalidated after task.resume()
      task = top->task;
      // ++ before invoking a task
      top = top->next;
      if (!task) [[unlikely]]
        goto work_end;  // dead pill
      // if exception thrown, std::terminate called
      task.resume();
    } while (top);
  }
work_end:
  // after this point .stop in thread pool cancels all pending tasks in queues for all workers
  noexport::cancel_tasks(top);''','''  for (;;) {
    task_node* top = queue.pop_all_not_empty();
    while (top) {
      task_node* cur = std::exchange(top, top->next);
      if (cur->is_deadpill()) [[unlikely]] {
        noexport::cancel_tasks(top);
        return;
      }
      // if exception thrown, std::terminate called
      cur->task.resume();
    }
  }''')]),
('worker-dtor',['C07'],[('thread_pool.hpp','''    if (!thread.joinable()) {
      noexport::cancel_tasks(queue.pop_all());
      return;
    }
    auto pill = task_node::deadpill();
    queue.push(&pill);
    thread.join();
    noexport::cancel_tasks(queue.pop_all());''','''    auto pill = task_node::deadpill();
    if (thread.joinable()) {
      queue.push(&pill);
      thread.join();
    }
    noexport::cancel_tasks(queue.pop_all());''')]),
('pool-dtor-helper',['C07','C04','C08'],[('thread_pool.hpp','''    for (auto& t : threads)
      if (t.joinable())
        t.join();
    for (auto& q : queues)
      noexport::cancel_tasks(q.pop_all());
  }''','''    for (size_t i = 0; i != threads.size(); ++i)
      if (threads[i].joinable())
        threads[i].join();
    cancel_all();
  }

 private:
  void cancel_all() noexcept {
    for (size_t i = 0; i < queues.size(); ++i)
      noexport::cancel_tasks(queues[i].pop_all());
  }

 public:''')]),
('pool-dtor-iter',['C07'],[('thread_pool.hpp','''    for (size_t i = 0; i < threads.size(); i++) {
      if (threads[i].joinable()) {
        queues[i].push(&pill);
        threads[i].join();
        //''','''    for (size_t i = 0; i < threads.size(); ++i) {
      std::thread& t = threads[i];
      task_queue& q = queues[i];
      if (!t.joinable())
        continue;
      {
        q.push(&pill);
        t.join();
        //''')]),
('pool-pills-per-queue',['C07'],[('thread_pool.hpp','''    for (size_t i = 0; i < threads.size(); i++) {
      if (threads[i].joinable()) {
        queues[i].push(&pill);
        threads[i].join();
        //''','''    for (size_t n = threads.size(), i = 0; i < n; i++) {
      if (threads[i].joinable()) {
        queues[i].push(&pill);
        threads[i].join();
        //''')]),
('pool-select',['C08'],[('thread_pool.hpp','''    task_queue& q = select_queue(calculate_operation_hash(node->task));
    q.attach(node);
  }''','''    const operation_hash_t h = calculate_operation_hash(node->task);
    select_queue(h).attach(node);
  }''')]),
('pool-fields',['C04','C07','C08'],[('thread_pool.hpp','''  noexport::fixed_array<task_queue> queues;    // invariant: queues.size() == threads.size()
  noexport::fixed_array<std::thread> threads;  // invariant: size > 0
''','''  noexport::fixed_array<task_queue> queues;    // invariant: queues.size() == threads.size()
  noexport::fixed_array<std::thread> threads;  // invariant: size > 0
  size_t queue_count() const noexcept {
    return queues.size();
  }
''')]),
('attach-list-for',['C08','C21'],[('thread_pool.hpp','''  while (top) {
    task_node* next = top->next;
    e.select_queue(hash).attach(top);
    ++hash;
    top = next;
  }''','''  for (task_node* next; top; top = next, ++hash) {
    next = top->next;
    e.select_queue(hash).attach(top);
  }'''),('executor_interface.hpp','''  while (top) {
    task_node* next = top->next;
    e.attach(top);
    top = next;
  }''','''  while (top)
    e.attach(std::exchange(top, top->next));''')]),
('reverse-list',['C21'],[('executor_interface.hpp','''  task_node* prev = nullptr;
  while (top) {
    task_node* next = std::exchange(top->next, prev);
    prev = std::exchange(top, next);
  }
  return prev;''','''  task_node* result = nullptr;
  while (top) {
    task_node* cur = top;
    top = top->next;
    cur->next = result;
    result = cur;
  }
  return result;''')]),
('node-fields',['C05','C06','C08','C09','C10','C11','C12','C21'],[('executor_interface.hpp','''  task_node* next = nullptr;
  std::coroutine_handle<> task = nullptr;
  schedule_errc status = schedule_errc::ok;
''','''  std::coroutine_handle<> task = nullptr;
  task_node* next = nullptr;
  schedule_errc status = schedule_errc::ok;
'''),('executor_interface.hpp','return task_node{.next = nullptr, .task = nullptr};','return task_node{.task = nullptr, .next = nullptr};')]),
('stack-push-shared',['C09','C10','C11'],[('nonowner_lockfree_stack.hpp','''    value_ptr->next = top.load(relaxed);
    // after this loop this->top == value_ptr, value_ptr->next == previous value of this->top
    while (!top.compare_exchange_weak(value_ptr->next, value_ptr, acq_rel, acquire)) {
    }
  }
''','''    push_chain(value_ptr, value_ptr);
  }
'''),('nonowner_lockfree_stack.hpp','''    last->next = top.load(relaxed);
    while (!top.compare_exchange_weak(last->next, other_top, acq_rel, acquire)) {
    }
  }
''','''    push_chain(other_top, last);
  }

 private:
  void push_chain(node_type* head, node_type* last) noexcept {
    node_type* expected = top.load(relaxed);
    do {
      last->next = expected;
    } while (!top.compare_exchange_weak(expected, head, acq_rel, relaxed));
  }
''')]),
('stack-release',['C09'],[('nonowner_lockfree_stack.hpp','''    while (!top.compare_exchange_weak(value_ptr->next, value_ptr, acq_rel, acquire)) {
    }
  }

''','''    while (!top.compare_exchange_strong(value_ptr->next, value_ptr, release, relaxed)) {
    }
  }

'''),('nonowner_lockfree_stack.hpp','return top.exchange(nullptr, acq_rel);','return top.exchange(nullptr, acquire);')]),
('latch-inline',['C10'],[('latch.hpp','''    task_node* top = stack.try_pop_all();
    attach_list(exe, top);''','''    for (task_node* n = stack.try_pop_all(); n;) {
      task_node* next = n->next;
      exe.attach(n);
      n = next;
    }'''),('latch.hpp','''    ptrdiff_t c = counter.fetch_sub(n, std::memory_order::acq_rel);
    assert(c >= n && "precondition violated");
    if (c == n) [[unlikely]]
      wakeup_all();''','''    const ptrdiff_t left = counter.fetch_sub(n, std::memory_order::acq_rel) - n;
    assert(left >= 0 && "precondition violated");
    if (left != 0) [[likely]]
      return;
    wakeup_all();''')]),
('latch-seqcst',['C10'],[('latch.hpp','''counter.fetch_sub(n, std::memory_order::acq_rel);''','''counter.fetch_sub(n);'''),('latch.hpp','''    return counter.load(std::memory_order::acquire) == 0;''','''    return counter.load() <= 0;''')]),
('latch-fields',['C10'],[('latch.hpp','''  nonowner_lockfree_stack<task_node> stack;
  any_executor_ref exe;
  std::atomic_ptrdiff_t counter;
''','''  std::atomic_ptrdiff_t counter;
  nonowner_lockfree_stack<task_node> stack;
  any_executor_ref exe;
''')]),
('event-for',['C11','C12'],[('events.hpp','''    while (top) {
      static_cast<subscribe*>(top)->input = input;
      task_node* next = top->next;
      exe.attach(top);
      top = next;
    }
    return true;''','''    for (task_node* next = nullptr; top; top = next) {
      next = top->next;
      subscribe& s = *static_cast<subscribe*>(top);
      s.input = input;
      exe.attach(&s);
    }
    return true;''')]),
('event-nested',['C11','C12'],[('events.hpp','''    task_node* top = subscribers.try_pop_all();
    if (!top)
      return false;
    // TODO not ignore possible exception from 'attach'
    attach_list(exe, top);
    return true;''','''    if (task_node* top = subscribers.try_pop_all()) {
      // TODO not ignore possible exception from 'attach'
      attach_list(exe, top);
      return true;
    }
    return false;''')]),
('event-fields',['C11','C12'],[('events.hpp','''    event* eve;
    // always initialized before resume
    KELCORO_NO_UNIQUE_ADDRESS input_type input;
''','''    // always initialized before resume
    KELCORO_NO_UNIQUE_ADDRESS input_type input;
    event* eve;
''')]),
('whenall-down',['C12'],[('events.hpp','''            if (count_.fetch_add(1, std::memory_order::acq_rel) == sizeof...(Inputs) - 1)
              handle.resume();
          };
        } else {''','''            const uint8_t before = count_.fetch_add(1, std::memory_order::acq_rel);
            if (before + 1 == sizeof...(Inputs))
              handle.resume();
          };
        } else {''')]),
('whenall-countdown',['C12'],[('events.hpp','''            if (count_.fetch_add(1, std::memory_order::acq_rel) == sizeof...(Inputs) - 1)
              handle.resume();
          };
        } else {''','''            if (count_.fetch_sub(1, std::memory_order::acq_rel) == 1)
              handle.resume();
          };
        } else {'''),('events.hpp','''            if (count_.fetch_add(1, std::memory_order::acq_rel) == sizeof...(Inputs) - 1)
              handle.resume();
          };
        }
      };

''','''            if (count_.fetch_sub(1, std::memory_order::acq_rel) == 1)
              handle.resume();
          };
        }
      };

'''),('events.hpp','subscribe_all_last_resumes_main_t{0,','subscribe_all_last_resumes_main_t{(uint8_t)sizeof...(Inputs),')]),
('whenany-flag',['C12'],[('events.hpp','''            auto value = count_ptr->fetch_add(1, std::memory_order::acq_rel);
            if (value == 0) {
              this->input.template emplace<EventIndex>(std::move(input_));
              // move ctor for input type always noexcept(static assert in 'event')
              handle.resume();
            }''','''            if (count_ptr->exchange(1, std::memory_order::acq_rel) != 0)
              return;
            this->input.template emplace<EventIndex>(std::move(input_));
            // move ctor for input type always noexcept(static assert in 'event')
            handle.resume();''')]),
('async-early',['C13'],[('async_task.hpp','''    if (empty())
      return;
    if (handle.promise().ref_count.fetch_sub(1, std::memory_order::acq_rel) == 1)
      handle.destroy();
    handle = nullptr;''','''    if (handle_type h = std::exchange(handle, nullptr)) {
      const bool last = h.promise().ref_count.fetch_sub(1, std::memory_order::acq_rel) == 1;
      if (last)
        h.destroy();
    }'''),('async_task.hpp','''      p.ready.exchange(true, std::memory_order::acq_rel);
      p.ready.notify_one();''','''      p.ready.store(true, std::memory_order::release);
      p.ready.notify_all();''')]),
('async-destroy',['C13'],[('async_task.hpp','''      bool im_last_owner = p.ref_count.fetch_sub(1, std::memory_order::acq_rel) == 1;
      return !im_last_owner;''','''      return p.ref_count.fetch_sub(1, std::memory_order::acq_rel) != 1;'''),('async_task.hpp','''    assert(!empty());
    wait();
    auto& promise = handle.promise();
    if (promise.exception) [[unlikely]]
      std::rethrow_exception(promise.exception);
    return promise.result();''','''    assert(!empty());
    auto& promise = handle.promise();
    wait();
    if (!promise.exception) [[likely]]
      return promise.result();
    std::rethrow_exception(promise.exception);''')]),
('async-fields',['C13'],[('async_task.hpp','''  std::exception_ptr exception = nullptr;
  std::atomic_bool ready = false;
  // only owner and coroutine itself are owners
  std::atomic_int8_t ref_count = 1;
''','''  std::atomic_bool ready = false;
  // only owner and coroutine itself are owners
  std::atomic_int ref_count = 1;
  std::exception_ptr exception = nullptr;
''')]),
('async-move',['C13'],[('async_task.hpp','''  constexpr async_task(async_task&& other) noexcept {
    swap(other);
  }''','''  constexpr async_task(async_task&& other) noexcept : handle(std::exchange(other.handle, nullptr)) {
  }'''),('async_task.hpp','''      handle.promise().ready.wait(false, std::memory_order::acquire);''','''      while (!handle.promise().ready.load(std::memory_order::acquire))
        handle.promise().ready.wait(false, std::memory_order::acquire);''')]),
('lthread-join',['C14'],[('logical_thread.hpp','''    if (joinable()) {
      request_stop();
      join();
    }''','''    if (!joinable())
      return;
    (void)request_stop();
    join();'''),('logical_thread.hpp','''    handle_.promise().stopped.wait();
    assert(handle_.done());
    handle_.destroy();
    handle_ = nullptr;
  }

  void detach''','''    handle_type h = std::exchange(handle_, nullptr);
    h.promise().stopped.wait();
    assert(h.done());
    h.destroy();
  }

  void detach''')]),
('lthread-inform',['C14'],[('logical_thread.hpp','''    bool informed = !flag.exchange(true, std::memory_order::acq_rel);
    if (informed)
      flag.notify_one();
    return informed;''','''    if (flag.exchange(true, std::memory_order::acq_rel))
      return false;
    flag.notify_all();
    return true;'''),('logical_thread.hpp','''  std::atomic_bool stop_requested_ = false;
  two_way_bound stopped;
''','''  two_way_bound stopped;
  std::atomic_bool stop_requested_ = false;
''')]),
('lthread-cas',['C14'],[('logical_thread.hpp','''    bool informed = !flag.exchange(true, std::memory_order::acq_rel);
''','''    bool expected = false;
    bool informed = flag.compare_exchange_strong(expected, true, std::memory_order::acq_rel, std::memory_order::acquire);
''')]),
('lthread-stop',['C14'],[('logical_thread.hpp','''  for (auto& value : rng)
    value.request_stop();
  for (auto& value : rng)
    value.join();''','''  auto b = std::ranges::begin(rng);
  auto e = std::ranges::end(rng);
  for (auto it = b; it != e; ++it)
    (*it).request_stop();
  for (; b != e; ++b)
    (*b).join();''')]),
('task-move',['C15'],[('task.hpp','''    std::swap(handle_, other.handle_);
    return *this;''','''    handle_type tmp = handle_;
    handle_ = other.handle_;
    other.handle_ = tmp;
    return *this;'''),('task.hpp','''  task(task&& other) noexcept : handle_(std::exchange(other.handle_, nullptr)) {
  }''','''  task(task&& other) noexcept : handle_(other.release()) {
  }''')]),
('task-detach',['C15'],[('task.hpp','''    if (h.done()) {
      if (!stop_at_end) {
        h.destroy();
        return nullptr;
      }
      return h;
    }
    // task resumes itself at end and destroys itself or just stops with noop_coroutine
    h.promise().who_waits = stop_at_end ? std::noop_coroutine() : std::coroutine_handle<>(nullptr);
    h.promise().ctx.on_start(h);
    h.resume();
    return h;''','''    if (h.done()) {
      if (stop_at_end)
        return h;
      h.destroy();
      return nullptr;
    }
    // task resumes itself at end and destroys itself or just stops with noop_coroutine
    auto& promise = h.promise();
    if (stop_at_end)
      promise.who_waits = std::noop_coroutine();
    promise.ctx.on_start(h);
    h.resume();
    return h;''')]),
('task-fields',['C15','C16','C17','C22'],[('task.hpp','''  KELCORO_NO_UNIQUE_ADDRESS Ctx ctx;
  std::coroutine_handle<> who_waits;
  std::exception_ptr exception = nullptr;
''','''  std::exception_ptr exception = nullptr;
  std::coroutine_handle<> who_waits;
  KELCORO_NO_UNIQUE_ADDRESS Ctx ctx;
''')]),
('task-prepare',['C15','C16','C17'],[('task.hpp','''      prepare_task_to_start(this->task_handle, proxy_owner);
      this->task_handle.promise().who_waits = owner;
      // symmetric transfer control to task
      return this->task_handle;''','''      auto& promise = this->task_handle.promise();
      promise.ctx.on_owner_setted(proxy_owner, this->task_handle);
      promise.ctx.on_start(this->task_handle);
      promise.who_waits = owner;
      // symmetric transfer control to task
      return this->task_handle;''')]),
('task-result',['C15','C22'],[('task.hpp','''    if (exception) [[unlikely]]
      std::rethrow_exception(exception);
    return this->result();''','''    if (exception == nullptr) [[likely]]
      return this->result();
    std::rethrow_exception(exception);''')]),
('all-job',['C16'],[('algorithm.hpp','''  if (child.raw_handle().promise().exception) [[unlikely]]
    result.data.template emplace<1>(child.raw_handle().promise().exception);
  else {
    if constexpr (!std::is_void_v<T>) {
      result.data.template emplace<0>(child.raw_handle().promise().result());
    } else {
      result.data.template emplace<0>();
    }
  }
  size_t i = count.fetch_sub(1, std::memory_order_acq_rel);
  if (i == 1)  // im last, now 'count' == 0
    co_await''','''  auto& promise = child.raw_handle().promise();
  if (!promise.exception) [[likely]] {
    if constexpr (std::is_void_v<T>)
      result.data.template emplace<0>();
    else
      result.data.template emplace<0>(promise.result());
  } else {
    result.data.template emplace<1>(promise.exception);
  }
  const bool last = count.fetch_sub(1, std::memory_order_acq_rel) == 1;
  if (last)  // now 'count' == 0
    co_await''')]),
('all-vector',['C16'],[('algorithm.hpp','''    size_t i = 0;
    for (auto& task : tasks)
      noexport::job_for_when_all(task, when_all_handle, results[i++], count);''','''    // everything here may be destroyed by the last child
    auto* t = tasks.data();
    auto* r = results.data();
    for (size_t n = tasks.size(); n != 0; --n, ++t, ++r)
      noexport::job_for_when_all(*t, when_all_handle, *r, count);''')]),
('any-state',['C17'],[('algorithm.hpp','''    if (!owner)  // do not overwrite value, if set_result setted
      return nullptr;
    result.template emplace<I>(unexpected(std::move(p)));
    --count_waiters;
    // returns true only if all tasks ended with exception
    return count_waiters == 0 ? owner : nullptr;''','''    // do not overwrite value, if set_result setted
    if (owner) {
      result.template emplace<I>(unexpected(std::move(p)));
      // only if all tasks ended with exception
      if (--count_waiters == 0)
        return owner;
    }
    return nullptr;'''),('algorithm.hpp','''    if (!owner)
      return nullptr;
    result.template emplace<I>(std::forward<Args>(args)...);
    return std::exchange(owner, nullptr);''','''    std::coroutine_handle<> to_resume = nullptr;
    if (owner) {
      result.template emplace<I>(std::forward<Args>(args)...);
      std::swap(to_resume, owner);
    }
    return to_resume;''')]),
('any-job',['C17'],[('algorithm.hpp','''  std::coroutine_handle<> owner;
  if (child_promise.exception) [[unlikely]]
    owner = state_s->template set_exception<I>(child_promise.exception);
  else {
    if constexpr (!std::is_void_v<T>) {
      owner = state_s->template set_result<I>(child_promise.result());
    } else {
      owner = state_s->template set_result<I>();
    }
  }
  if (owner)
    co_await''','''  auto report = [&]() -> std::coroutine_handle<> {
    if (child_promise.exception) [[unlikely]]
      return state_s->template set_exception<I>(child_promise.exception);
    if constexpr (!std::is_void_v<T>)
      return state_s->template set_result<I>(child_promise.result());
    else
      return state_s->template set_result<I>();
  };
  if (std::coroutine_handle<> owner = report())
    co_await''')]),
('any-fields',['C17'],[('algorithm.hpp','''  std::mutex mtx;
  std::variant<std::monostate, expected<Ts, std::exception_ptr>...> result;
  size_t count_waiters = 0;
  std::coroutine_handle<> owner = nullptr;
''','''  size_t count_waiters = 0;
  std::coroutine_handle<> owner = nullptr;
  std::variant<std::monostate, expected<Ts, std::exception_ptr>...> result;
  std::mutex mtx;
''')]),
('gen-skip',['C18','C20'],[('generator.hpp','''    generator_promise& owner_p = _owner.promise();
    KELCORO_ASSUME(&owner_p != this);
    owner_p.root = root;
    root->current_worker = _owner;''','''    root->current_worker = _owner;
    _owner.promise().root = root;'''),('generator.hpp','''      if (p.root != &p) {
        p.skip_this_leaf();
        return p.owner();
      }
      p.set_result(nullptr);
      return std::noop_coroutine();''','''      const bool is_root = p.root == &p;
      if (is_root) {
        p.set_result(nullptr);
        return std::noop_coroutine();
      }
      p.skip_this_leaf();
      return p.owner();''')]),
('gen-swap',['C18'],[('generator.hpp','''    std::swap(current_result, other.current_result);
    std::swap(top, other.top);
    if (top)
      prepare_to_start();
    if (other.top)
      other.prepare_to_start();
  }''','''    std::swap(top, other.top);
    std::swap(current_result, other.current_result);
    rebind();
    other.rebind();
  }'''),('generator.hpp','''  void prepare_to_start() noexcept {''','''  void rebind() noexcept {
    if (top)
      prepare_to_start();
  }
  void prepare_to_start() noexcept {'''),('generator.hpp','''    clear();
    top = handle;
    if (top)
      prepare_to_start();''','''    clear();
    top = handle;
    rebind();''')]),
('gen-clear',['C18'],[('generator.hpp','''    if (top) {
      top.destroy();
      top = nullptr;
      current_result = nullptr;
    }''','''    current_result = nullptr;
    if (handle_type h = std::exchange(top, nullptr))
      h.destroy();'''),('generator.hpp','''    iterator it(*this);
    if (!empty()) [[likely]]
      ++it;
    return it;''','''    if (empty()) [[unlikely]]
      return iterator(*this);
    iterator it(*this);
    ++it;
    return it;''')]),
('gen-attach',['C18','C19'],[('noexport/generators_common.hpp','''    auto& leaf_p = leaf.top.promise();
    auto& root_p = *owner.promise().root;
    leaf_p.current_worker.promise().root = &root_p;
    leaf_p._owner = owner;
    root_p.current_worker = leaf_p.current_worker;
    return leaf_p.current_worker;''','''    auto& leaf_p = leaf.top.promise();
    auto* const root = owner.promise().root;
    const auto worker = leaf_p.current_worker;
    leaf_p._owner = owner;
    worker.promise().root = root;
    root->current_worker = worker;
    return worker;''')]),
('gen-fields',['C18'],[('generator.hpp','''  KELCORO_NO_UNIQUE_ADDRESS pointer_to_yielded_t<Yield> current_result = nullptr;
  handle_type top = nullptr;
''','''  handle_type top = nullptr;
  KELCORO_NO_UNIQUE_ADDRESS pointer_to_yielded_t<Yield> current_result = nullptr;
''')]),
('chan-swap',['C19'],[('channel.hpp','''    if (top)
      top.promise()._consumer = this;
    if (other.top)
      other.top.promise()._consumer = std::addressof(other);
  }''','''    bind_consumer();
    other.bind_consumer();
  }'''),('channel.hpp','''  constexpr explicit channel(handle_type top) noexcept : top(top) {
  }''','''  constexpr explicit channel(handle_type top) noexcept : top(top) {
  }
  void bind_consumer() noexcept {
    if (top)
      top.promise()._consumer = this;
  }''')]),
('chan-await',['C19'],[('channel.hpp','''    [[nodiscard]] channel_iterator<Yield> await_resume() const noexcept {''','''    [[nodiscard]] auto await_resume() const noexcept {'''),('channel.hpp','''    set_exception(std::current_exception());  // notify root->consumer about exception
    _consumer = root->_consumer;              // 'final_suspend' will 'set_result' through root->consumer
    root = this;                              // force final suspend return into consumer''','''    channel<Yield>* const c = root->_consumer;
    c->exception = std::current_exception();  // notify consumer about exception
    _consumer = c;                            // 'final_suspend' will 'set_result' through root->consumer
    root = this;                              // force final suspend return into consumer''')]),
('chan-fields',['C19'],[('channel.hpp','''  std::add_pointer_t<Yield> current_result = nullptr;
  std::coroutine_handle<> handle = nullptr;  // coro in which i exist(setted in co_await on .begin)
  handle_type top = nullptr;                 // current top level channel
''','''  handle_type top = nullptr;                 // current top level channel
  std::coroutine_handle<> handle = nullptr;  // coro in which i exist(setted in co_await on .begin)
  std::add_pointer_t<Yield> current_result = nullptr;
''')]),
('chan-dtor',['C19'],[('channel.hpp','''    if (chan->exception) [[unlikely]]
      std::rethrow_exception(chan->take_exception());''','''    if (std::exception_ptr e = chan->take_exception()) [[unlikely]]
      std::rethrow_exception(std::move(e));''')]),
('inplace',['C20'],[('inplace_generator.hpp','''  constexpr inplace_generator(inplace_generator&& other) noexcept : top(other.top) {
    // assume not allocates (noexcept)
    other.top = empty_generator().handle;
  }''','''  // assume not allocates (noexcept)
  constexpr inplace_generator(inplace_generator&& other) noexcept
      : top(std::exchange(other.top, empty_generator().handle)) {
  }'''),('inplace_generator.hpp','''    std::swap(top, other.top);
  }''','''    handle_type t = top;
    top = other.top;
    other.top = t;
  }''')]),
('exec-handle',['C21'],[('executor_interface.hpp','''    // set task before it is attached
    task = handle;
    e.attach(this);''','''    task_node* self = this;
    self->task = handle;
    e.attach(self);''')]),
('ret-emplace',['C22'],[('common.hpp','''    std::construct_at(std::addressof(storage), std::forward<U>(value));''','''    ::new (static_cast<void*>(std::addressof(storage))) T(std::forward<U>(value));'''),('common.hpp','''    return std::move(*storage);''','''    return std::move(storage.value());''') if 0 else ('common.hpp','''    return std::move(*storage);''','''    T& value = *storage;
    return static_cast<T&&>(value);''')]),
('expected',['C16','C17','C22'],[('noexport/expected.hpp','''    return std::holds_alternative<value_type>(data);''','''    return data.index() == 0;''')]),
('stk-takeatleast',['C01','C02'],[('stack_memory_resource.hpp','''      size_t sz_before = count();
      chunk_header* prev = nullptr;
      chunk_header* c = top;
      while (c) {
        assert(c->b == c->m);
        if (c->capacity() >= bytes) {
          if (prev)
            prev->freelist_next = c->freelist_next;
          else
            top = c->freelist_next;
          c->freelist_next = nullptr;
          assert(count() == sz_before - 1);
          return c;
        }
        prev = c;
        c = c->freelist_next;
      }
      return nullptr;''','''      for (chunk_header** link = &top; *link; link = &(*link)->freelist_next) {
        chunk_header* c = *link;
        assert(c->b == c->m);
        if (c->capacity() < bytes)
          continue;
        *link = c->freelist_next;
        c->freelist_next = nullptr;
        return c;
      }
      return nullptr;''')]),
('stk-swap',['C01','C02'],[('stack_memory_resource.hpp','''    // replace prev chunk state with its own state
    b = std::exchange(chunk->b, b);
    m = std::exchange(chunk->m, m);
    e = std::exchange(chunk->e, e);
    freelist.push(chunk);''','''    // replace prev chunk state with its own state
    std::swap(b, chunk->b);
    std::swap(m, chunk->m);
    std::swap(e, chunk->e);
    freelist.push(chunk);'''),('stack_memory_resource.hpp','''      while (top) {
        chunk_header* next = top->freelist_next;
        delete[] (byte_t*)top;
        top = next;
      }''','''      while (chunk_header* chunk = top) {
        top = chunk->freelist_next;
        delete[] reinterpret_cast<byte_t*>(chunk);
      }''')]),
('stk-alloc',['C01','C02'],[('stack_memory_resource.hpp','''    if (e - m >= len)
      return std::exchange(m, m + len);
    if (chunk_header* chunk = freelist.take_atleast(len)) {
      assert(chunk->b == chunk->m);
      // store prev chunk in the 'chunk'
      b = std::exchange(chunk->b, b);
      m = std::exchange(chunk->m, m) + len;
      e = std::exchange(chunk->e, e);
    } else {''','''    if (len <= (size_t)(e - m)) {
      byte_t* result = m;
      m += len;
      return result;
    }
    if (chunk_header* chunk = freelist.take_atleast(len)) {
      assert(chunk->b == chunk->m);
      // store prev chunk in the 'chunk'
      std::swap(b, chunk->b);
      std::swap(m, chunk->m);
      std::swap(e, chunk->e);
      m += len;
    } else {''')]),
('stk-dealloc',['C01','C02'],[('stack_memory_resource.hpp','''    while ((byte_t*)ptr != m - len) {
      assert(ptr <= b || ptr >= e);
      drop_cur_chunk();
    }
    m -= len;''','''    byte_t* const block = static_cast<byte_t*>(ptr);
    for (; block + len != m; drop_cur_chunk())
      assert(ptr <= b || ptr >= e);
    m = block;''')]),
('stk-fields',['C01','C02'],[('stack_memory_resource.hpp','''  std::span<byte_t> initial_buffer;
  byte_t* b = nullptr;
  byte_t* m = nullptr;
  byte_t* e = nullptr;
  freelist_t freelist;
''','''  freelist_t freelist;
  std::span<byte_t> initial_buffer;
  byte_t* b = nullptr;
  byte_t* m = nullptr;
  byte_t* e = nullptr;
''')]),
('stk-reuse',['C01','C02'],[('stack_memory_resource.hpp','''    while (b != initial_buffer.data()) {
      m = b;
      drop_cur_chunk();
    }
    m = b;''','''    for (m = b; b != initial_buffer.data(); m = b)
      drop_cur_chunk();''')]),
('mem-newdel',['C03'],[('memory_support.hpp','''      frame_sz += noexport::padding_len<alignof(R)>(frame_sz);
      std::byte* p = (std::byte*)r.allocate(frame_sz + sizeof(R));
      new (p + frame_sz) R(std::move(r));
      return p;''','''      const size_t offset = resource_offset(frame_sz);
      std::byte* p = (std::byte*)r.allocate(offset + sizeof(R));
      std::construct_at((R*)(p + offset), std::move(r));
      return p;'''),('memory_support.hpp','''  static void* do_allocate(size_t frame_sz, R& r) {''','''  static constexpr size_t resource_offset(size_t frame_sz) noexcept {
    return frame_sz + noexport::padding_len<alignof(R)>(frame_sz);
  }
  static void* do_allocate(size_t frame_sz, R& r) {'''),('memory_support.hpp','''      frame_sz += noexport::padding_len<alignof(R)>(frame_sz);
      R* onframe_resource = (R*)((std::byte*)ptr + frame_sz);''','''      frame_sz = resource_offset(frame_sz);
      R* onframe_resource = reinterpret_cast<R*>(static_cast<std::byte*>(ptr) + frame_sz);''')]),
('mem-pad',['C01','C02','C03'],[('memory_support.hpp','''  enum { P = RequiredPadding };
  static_assert(P != 0);
  return (P - sz % P) % P;''','''  static_assert(RequiredPadding != 0);
  const size_t rest = sz % RequiredPadding;
  return rest == 0 ? 0 : RequiredPadding - rest;''')]),
('mem-poly',['C04'],[('memory_support.hpp','''  polymorphic_resource() noexcept : passed(std::exchange(passed_resource(), nullptr)) {
    if (!passed)
      passed = default_resource().load(std::memory_order_acquire);
    assert(passed != nullptr);
  }''','''  polymorphic_resource() noexcept {
    auto& selected = passed_resource();
    if (selected) {
      passed = selected;
      selected = nullptr;
    } else {
      passed = std::addressof(get_default_resource());
    }
    assert(passed != nullptr);
  }''')]),
('fixed-array',['C04','C07','C08'],[('noexport/fixed_array.hpp','''    if (n == 0)
      return;
    arr = (T*)resource.allocate(sizeof(T) * n, alignof(T));
    std::uninitialized_default_construct_n(arr, n);''','''    if (n != 0) {
      void* p = resource.allocate(n * sizeof(T), alignof(T));
      arr = static_cast<T*>(p);
      std::uninitialized_default_construct_n(arr, n);
    }'''),('noexport/fixed_array.hpp','''    if (arr) {
      std::destroy_n(arr, n);''','''    if (arr != nullptr) {
      for (size_t i = 0; i < n; ++i)
        std::destroy_at(arr + i);''')]),
('fixed-array-fields',['C04','C07','C08'],[('noexport/fixed_array.hpp','''  T* arr = nullptr;
  size_t n = 0;
  std::pmr::memory_resource* resource = std::pmr::new_delete_resource();
''','''  std::pmr::memory_resource* resource = std::pmr::new_delete_resource();
  size_t n = 0;
  T* arr = nullptr;
''')]),
]

# ---- second batch: in the style of a maintainer tidying up
R += [
('b2-worker-dtor-flag', ['C07'], [('thread_pool.hpp', """    if (!thread.joinable()) {
      noexport::cancel_tasks(queue.pop_all());
      return;
    }
    auto pill = task_node::deadpill();
    queue.push(&pill);
    thread.join();
    noexport::cancel_tasks(queue.pop_all());
""", """    if (thread.joinable()) {
      task_node stop_marker = task_node::deadpill();
      queue.attach_marker(stop_marker);
      thread.join();
    }
    task_node* rest = queue.pop_all();
    noexport::cancel_tasks(rest);
"""), ('thread_pool.hpp', """  // precondition: node && node->task
  // executor interface
  void attach(task_node* node) noexcept {
    assert(node && node->task);
    push(node);
  }
};

static_assert(executor<task_queue>);""", """  void attach_marker(task_node& m) {
    push(&m);
  }

  // precondition: node && node->task
  // executor interface
  void attach(task_node* node) noexcept {
    assert(node && node->task);
    push(node);
  }
};

static_assert(executor<task_queue>);""")]),
('b2-pool-ctor', ['C07', 'C04', 'C08'], [('thread_pool.hpp', """      for (size_t i = 0; i < threads.size(); i++) {
        if (!threads[i].joinable())
          break;
        queues[i].push(&pill);
        threads[i].join();
      }
    }};
    for (size_t i = 0; i < threads.size(); i++)
      threads[i] = std::thread(job, std::ref(queues[i]));
    failed = false;""", """      size_t i = 0;
      while (i != started) {
        queues[i].push(&pill);
        threads[i].join();
        ++i;
      }
    }};
    while (started != threads.size()) {
      threads[started] = std::thread(job, std::ref(queues[started]));
      ++started;
    }
    failed = false;"""), ('thread_pool.hpp', "    bool failed = true;\n", "    bool failed = true;\n    size_t started = 0;\n")]),
('b2-queue-reorder', ['C05', 'C06', 'C07'], [('thread_pool.hpp', """    if (first) {
      last->next = first_;
      last = last_;
    } else {
      first = first_;
      last = last_;
""", """    const bool was_empty = first == nullptr;
    task_node*& link = was_empty ? first : last->next;
    link = first_;
    last = last_;
    if (was_empty) {
""")]),
('b2-queue-notify-outside', ['C05'], [('thread_pool.hpp', """    return std::exchange(first, nullptr);
  }

 public:""", """    task_node* all = first;
    first = nullptr;
    last = nullptr;
    return all;
  }

 public:""")]),
('b2-push-list-for', ['C05'], [('thread_pool.hpp', """    auto last_ = first_;
    while (last_->next)
      last_ = last_->next;
    push_list(first_, last_);""", """    task_node* tail = first_;
    for (task_node* n = tail->next; n != nullptr; n = n->next)
      tail = n;
    push_list(first_, tail);""")]),
('b2-stk-alloc-helper', ['C01', 'C02'], [('stack_memory_resource.hpp', """    } else {
      // allocate atleast * 2 current size
      const size_t alloc_bytes = (len + (e - b) + initial_buffer.size()) * 2;
      byte_t* new_chunk = new byte_t[sizeof(chunk_header) + alloc_bytes];
      new (new_chunk) chunk_header{b, m, e, nullptr};
      b = new_chunk + sizeof(chunk_header);
      m = b + len;
      e = b + alloc_bytes;
    }
    return b;
  }
""", """    } else {
      open_chunk((len + size_t(e - b) + initial_buffer.size()) * 2);
      m += len;
    }
    return b;
  }

  void open_chunk(size_t alloc_bytes) {
    byte_t* new_chunk = new byte_t[sizeof(chunk_header) + alloc_bytes];
    auto* header = (chunk_header*)new_chunk;
    header->freelist_next = nullptr;
    header->e = e;
    header->m = m;
    header->b = b;
    b = new_chunk + sizeof(chunk_header);
    m = b;
    e = m + alloc_bytes;
  }
""")]),
('b2-stk-drop-locals', ['C01', 'C02'], [('stack_memory_resource.hpp', """    b = std::exchange(chunk->b, b);
    m = std::exchange(chunk->m, m);
    e = std::exchange(chunk->e, e);
    freelist.push(chunk);""", """    std::swap(e, chunk->e);
    std::swap(m, chunk->m);
    std::swap(b, chunk->b);
    freelist.push(chunk);""")]),
('b2-stk-reuse-for', ['C01', 'C02'], [('stack_memory_resource.hpp', """    while (b != initial_buffer.data()) {
      m = b;
      drop_cur_chunk();
    }
    m = b;
  }""", """    byte_t* const first = initial_buffer.data();
    for (m = b; b != first; m = b)
      drop_cur_chunk();
  }""")]),
('b2-stk-move', ['C01', 'C02'], [('stack_memory_resource.hpp', """      : initial_buffer(other.initial_buffer), b(other.b), m(other.m), e(other.e), freelist(other.freelist) {
    other.initial_buffer = {};
    other.b = other.e = other.m = nullptr;
    other.freelist.top = nullptr;
  }""", """      : initial_buffer(std::exchange(other.initial_buffer, {})),
        b(std::exchange(other.b, nullptr)),
        m(std::exchange(other.m, nullptr)),
        e(std::exchange(other.e, nullptr)),
        freelist(std::exchange(other.freelist, freelist_t{})) {
  }""")]),
('b2-stk-drop-all', ['C02'], [('stack_memory_resource.hpp', """      while (top) {
        chunk_header* next = top->freelist_next;
        delete[] (byte_t*)top;
        top = next;
      }""", """      chunk_header* c = std::exchange(top, nullptr);
      while (c) {
        byte_t* mem = (byte_t*)c;
        c = c->freelist_next;
        delete[] mem;
      }""")]),
('b2-mem-size', ['C03'], [('memory_support.hpp', """      frame_sz += noexport::padding_len<alignof(R)>(frame_sz);
      std::byte* p = (std::byte*)r.allocate(frame_sz + sizeof(R));
      new (p + frame_sz) R(std::move(r));
      return p;""", """      const size_t at = place_of_resource(frame_sz);
      void* p = r.allocate(at + sizeof(R));
      std::construct_at(reinterpret_cast<R*>(static_cast<std::byte*>(p) + at), std::move(r));
      return p;"""), ('memory_support.hpp', """      frame_sz += noexport::padding_len<alignof(R)>(frame_sz);
      R* onframe_resource = (R*)((std::byte*)ptr + frame_sz);
      assert((((uintptr_t)onframe_resource % alignof(R)) == 0));
      // save to stack from deallocated memory
      R r = std::move(*onframe_resource);
      std::destroy_at(onframe_resource);
      r.deallocate(ptr, frame_sz + sizeof(R));""", """      const size_t at = place_of_resource(frame_sz);
      R* kept = (R*)((std::byte*)ptr + at);
      R r(std::move(*kept));
      kept->~R();
      r.deallocate(ptr, at + sizeof(R));"""), ('memory_support.hpp', """ private:
  static void* do_allocate(size_t frame_sz, R& r) {""", """ private:
  static constexpr size_t place_of_resource(size_t frame_sz) noexcept {
    return (frame_sz + alignof(R) - 1) / alignof(R) * alignof(R);
  }
  static void* do_allocate(size_t frame_sz, R& r) {""")]),
('b2-poly-ctor', ['C04'], [('memory_support.hpp', """  polymorphic_resource() noexcept : passed(std::exchange(passed_resource(), nullptr)) {
    if (!passed)
      passed = default_resource().load(std::memory_order_acquire);
    assert(passed != nullptr);
  }""", """  polymorphic_resource() noexcept : passed(take()) {
    assert(passed != nullptr);
  }
  static std::pmr::memory_resource* take() noexcept {
    auto& slot = passed_resource();
    if (std::pmr::memory_resource* r = slot) {
      slot = nullptr;
      return r;
    }
    return default_resource().load(std::memory_order_acquire);
  }""")]),
('b2-fixed-array-ctor', ['C04', 'C07'], [('noexport/fixed_array.hpp', """    arr = (T*)resource.allocate(sizeof(T) * n, alignof(T));
    std::uninitialized_default_construct_n(arr, n);""", """    T* mem = (T*)resource.allocate(n * sizeof(T), alignof(T));
    for (T* p = mem; p != mem + n; ++p)
      ::new ((void*)p) T;
    arr = mem;"""), ('noexport/fixed_array.hpp', """      std::destroy_n(arr, n);
""", """      for (size_t i = n; i != 0; --i)
        std::destroy_at(arr + (i - 1));
""")]),
('b2-gen-final', ['C18'], [('generator.hpp', """      if (p.root != &p) {
        p.skip_this_leaf();
        return p.owner();
      }
      p.set_result(nullptr);
      return std::noop_coroutine();""", """      if (p.root == &p) {
        p.set_result(nullptr);
        return std::noop_coroutine();
      }
      std::coroutine_handle<> next = p.owner();
      p.skip_this_leaf();
      return next;""")]),
('b2-gen-release', ['C18'], [('generator.hpp', """    current_result = nullptr;
    return std::exchange(top, nullptr);""", """    handle_type h = top;
    top = nullptr;
    current_result = nullptr;
    return h;"""), ('generator.hpp', """    clear();
    top = handle;
    if (top)
      prepare_to_start();
  }""", """    clear();
    if (handle) {
      top = handle;
      prepare_to_start();
    }
  }""")]),
('b2-gen-inc', ['C18'], [('generator.hpp', """    self->top.promise().current_worker.resume();
""", """    auto& promise = self->top.promise();
    std::coroutine_handle<> worker = promise.current_worker;
    worker.resume();
""")]),
('b2-chan-common', ['C19'], [('channel.hpp', """  struct next_awaiter : not_movable {
    channel& self;

    constexpr explicit next_awaiter(channel& c) noexcept : self(c) {
    }
    bool await_ready() const noexcept {
      return self.empty();
    }
    KELCORO_ASSUME_NOONE_SEES std::coroutine_handle<> await_suspend(
        std::coroutine_handle<> consumer) noexcept {
      self.handle = consumer;
      self.top.promise()._consumer = &self;
      return self.top.promise().current_worker;
    }""", """  std::coroutine_handle<> continue_for(std::coroutine_handle<> consumer) noexcept {
    auto& p = top.promise();
    p._consumer = this;
    handle = consumer;
    return p.current_worker;
  }
  struct next_awaiter : not_movable {
    channel& self;

    constexpr explicit next_awaiter(channel& c) noexcept : self(c) {
    }
    bool await_ready() const noexcept {
      return self.empty();
    }
    std::coroutine_handle<> await_suspend(std::coroutine_handle<> consumer) noexcept {
      return self.continue_for(consumer);
    }""")]),
('b2-chan-unhandled', ['C19'], [('channel.hpp', """    if (root != this)
      skip_this_leaf();
    // consumer""", """    const bool is_leaf = root != this;
    if (is_leaf)
      skip_this_leaf();
    // consumer""")]),
('b2-latch-await', ['C10'], [('latch.hpp', """      latch& lt = l;
      node.task = handle;
      lt.stack.push(&node);
      // in case if 'ready' changed from 'false' to 'true' wakeup all who call 'wait'
      if (lt.ready())
        lt.wakeup_all();""", """      node.task = handle;
      l.enqueue(node);"""), ('latch.hpp', """ private:
  void wakeup_all() noexcept {
    task_node* top = stack.try_pop_all();
    attach_list(exe, top);
  }""", """ private:
  void enqueue(task_node& n) noexcept {
    stack.push(&n);
    if (counter.load(std::memory_order::seq_cst) != 0)
      return;
    wakeup_all();
  }
  void wakeup_all() noexcept {
    attach_list(exe, stack.try_pop_all());
  }""")]),
('b2-async-final', ['C13'], [('async_task.hpp', """      p.ready.exchange(true, std::memory_order::acq_rel);
      p.ready.notify_one();
      // continue and destroy if ref count == 0
      bool im_last_owner = p.ref_count.fetch_sub(1, std::memory_order::acq_rel) == 1;
      return !im_last_owner;""", """      p.ready.store(true, std::memory_order::release);
      p.ready.notify_all();
      return p.ref_count.fetch_sub(1, std::memory_order::acq_rel) != 1;""")]),
('b2-task-await', ['C15', 'C16', 'C17'], [('task.hpp', """    promise.who_waits = owner;
    promise.ctx.on_owner_setted(owner, task_handle);
    promise.ctx.on_start(task_handle);""", """    auto& ctx = promise.ctx;
    ctx.on_owner_setted(owner, task_handle);
    ctx.on_start(task_handle);
    promise.who_waits = owner;""")]),
('b2-task-start-detach', ['C15'], [('task.hpp', """    if (!handle_)
      return nullptr;
    handle_type h = detach();
    if (h.done()) {
      if (!stop_at_end) {
        h.destroy();
        return nullptr;
      }
      return h;
    }
    // task resumes itself at end and destroys itself or just stops with noop_coroutine
    h.promise().who_waits = stop_at_end ? std::noop_coroutine() : std::coroutine_handle<>(nullptr);""", """    handle_type h = detach();
    if (!h)
      return h;
    if (h.done()) {
      if (stop_at_end)
        return h;
      h.destroy();
      return nullptr;
    }
    // task resumes itself at end and destroys itself or just stops with noop_coroutine
    if (stop_at_end)
      h.promise().who_waits = std::noop_coroutine();""")]),
('b2-all-tuple', ['C16'], [('algorithm.hpp', """    auto starter = [&](auto&... vals) {
      (noexport::job_for_when_all(tasks, when_all_handle, vals, count), ...);
    };
    std::apply(starter, results);
  });
  co_return results;
}

// precondition: all tasks not .empty()
template <typename T, typename Ctx>""", """    [&]<size_t... Is>(std::index_sequence<Is...>) {
      (noexport::job_for_when_all(tasks, when_all_handle, std::get<Is>(results), count), ...);
    }(std::index_sequence_for<Ts...>{});
  });
  co_return std::move(results);
}

// precondition: all tasks not .empty()
template <typename T, typename Ctx>""")]),
('b2-any-start', ['C17'], [('algorithm.hpp', """      for (job& j : jobs)
        j.handle.resume();""", """      for (size_t i = 0; i != sizeof...(Is); ++i) {
        std::coroutine_handle<> h = jobs[i].handle;
        h.resume();
      }""")]),
('b2-select', ['C08'], [('thread_pool.hpp', """    task_queue& q = select_queue(calculate_operation_hash(node->task));
    q.attach(node);""", """    const operation_hash_t hash = calculate_operation_hash(node->task);
    select_queue(hash).push(node);""")]),
]
R+=[
('b3-stop-loops',['C14'],[('logical_thread.hpp','''  for (auto& value : rng)
    value.request_stop();
  for (auto& value : rng)
    value.join();''','''  auto first = std::ranges::begin(rng);
  auto last = std::ranges::end(rng);
  for (auto it = first; it != last; ++it)
    it->request_stop();
  for (auto it = first; it != last; ++it)
    it->join();''')]),
('b3-lthread-frame',['C14'],[('logical_thread.hpp','''    handle_.promise().stopped.wait();
    assert(handle_.done());
    handle_.destroy();
    handle_ = nullptr;''','''    handle_type h = std::exchange(handle_, nullptr);
    h.promise().stopped.wait();
    assert(h.done());
    h.destroy();''')]),
('b3-lthread-detach',['C14'],[('logical_thread.hpp','''    if (!handle_.promise().stopped.try_inform()) [[unlikely]]
      handle_.destroy();
    handle_ = nullptr;''','''    auto h = std::exchange(handle_, nullptr);
    const bool coro_still_runs = h.promise().stopped.try_inform();
    if (coro_still_runs)
      return;
    h.destroy();''')]),
('b3-latch-guard',['C10'],[('latch.hpp','''      if (lt.ready())
        lt.wakeup_all();''','''      if (!lt.ready())
        return;
      lt.wakeup_all();'''),('latch.hpp','''    task_node* top = stack.try_pop_all();
    attach_list(exe, top);''','''    if (task_node* top = stack.try_pop_all())
      attach_list(exe, top);''')]),
('b3-event-helper',['C11','C12'],[('events.hpp','''    while (top) {
      static_cast<subscribe*>(top)->input = input;
      task_node* next = top->next;
      exe.attach(top);
      top = next;
    }
    return true;''','''    do {
      task_node* cur = std::exchange(top, top->next);
      deliver(exe, *static_cast<subscribe*>(cur), input);
    } while (top);
    return true;'''),('events.hpp','''  // subscribe for non coroutines
''','''  template <typename E>
  static void deliver(E& exe, subscribe& s, const input_type& input) {
    s.input = input;
    exe.attach(&s);
  }
  // subscribe for non coroutines
''')]),
('b3-pool-dtor',['C07'],[('thread_pool.hpp','''      if (threads[i].joinable()) {
        queues[i].push(&pill);
        threads[i].join();''','''      std::thread& t = threads[i];
      if (!t.joinable())
        continue;
      {
        queues[i].push(&pill);
        t.join();''')]),
('b3-pool-attachlist',['C08'],[('thread_pool.hpp','''  operation_hash_t hash = noexport::do_hash(top);
  while (top) {
    task_node* next = top->next;
    e.select_queue(hash).attach(top);
    ++hash;
    top = next;
  }''','''  const operation_hash_t hash = noexport::do_hash(top);
  for (operation_hash_t i = 0; top; ++i) {
    task_node* node = std::exchange(top, top->next);
    e.select_queue(hash + i).attach(node);
  }''')]),
('b3-wait-stop',['C07'],[('thread_pool.hpp','''    for (auto& t : threads)
      if (t.joinable())
        t.join();
    for (auto& q : queues)
      noexport::cancel_tasks(q.pop_all());
  }
};''','''    for (size_t i = 0; i != threads.size(); ++i) {
      if (!threads[i].joinable())
        continue;
      threads[i].join();
    }
    for (size_t i = 0; i != queues.size(); ++i)
      noexport::cancel_tasks(queues[i].pop_all());
  }
};''')]),
('b3-worker-for',['C06','C07'],[('thread_pool.hpp','''    do {
      // grab task from memory which will be invalidated after task.resume()
      task = top->task;
      // ++ before invoking a task
      top = top->next;
      if (!task) [[unlikely]]
        goto work_end;  // dead pill
      // if exception thrown, std::terminate called
      task.resume();
    } while (top);
  }
work_end:
  // after this point .stop in thread pool cancels all pending tasks in queues for all workers
  noexport::cancel_tasks(top);''','''    while (top) {
      task_node* cur = std::exchange(top, top->next);
      task = cur->task;
      if (!task) [[unlikely]] {
        noexport::cancel_tasks(top);
        return;
      }
      task.resume();
    }
  }''')]),
('b3-async-wait',['C13'],[('async_task.hpp','''    if (empty())
      return;
    if (handle.promise().ref_count.fetch_sub(1, std::memory_order::acq_rel) == 1)
      handle.destroy();
    handle = nullptr;''','''    if (handle_type h = std::exchange(handle, nullptr)) {
      const auto before = h.promise().ref_count.fetch_sub(1, std::memory_order::acq_rel);
      if (before == 1)
        h.destroy();
    }''')]),
('b3-async-get',['C13','C22'],[('async_task.hpp','''    auto& promise = handle.promise();
    if (promise.exception) [[unlikely]]
      std::rethrow_exception(promise.exception);
    return promise.result();''','''    if (const std::exception_ptr& ex = handle.promise().exception; ex != nullptr) [[unlikely]]
      std::rethrow_exception(ex);
    return handle.promise().result();''')]),
('b3-all-job',['C16'],[('algorithm.hpp','''  if (child.raw_handle().promise().exception) [[unlikely]]
    result.data.template emplace<1>(child.raw_handle().promise().exception);
  else {''','''  auto& promise = child.raw_handle().promise();
  if (const bool failed = promise.exception != nullptr; failed)
    result.data.template emplace<1>(promise.exception);
  else {'''),('algorithm.hpp','''  size_t i = count.fetch_sub(1, std::memory_order_acq_rel);
  if (i == 1)  // im last, now 'count' == 0
    co_await''','''  const bool last = --count == 0;
  if (last)
    co_await''')]),
('b3-any-set',['C17'],[('algorithm.hpp','''    if (!owner)
      return nullptr;
    result.template emplace<I>(std::forward<Args>(args)...);
    return std::exchange(owner, nullptr);''','''    if (owner) {
      result.template emplace<I>(std::forward<Args>(args)...);
      auto o = owner;
      owner = nullptr;
      return o;
    }
    return nullptr;''')]),
('b3-task-get',['C15'],[('task.hpp','''    h.promise().who_waits = stop_at_end ? std::noop_coroutine() : std::coroutine_handle<>(nullptr);''','''    auto& who = h.promise().who_waits;
    if (stop_at_end)
      who = std::noop_coroutine();
    else
      who = nullptr;''')]),
('b3-stk-dealloc',['C01','C02'],[('stack_memory_resource.hpp','''    while ((byte_t*)ptr != m - len) {
      assert(ptr <= b || ptr >= e);
      drop_cur_chunk();
    }
    m -= len;''','''    byte_t* const p = static_cast<byte_t*>(ptr);
    for (; p + len != m; drop_cur_chunk())
      assert(ptr <= b || ptr >= e);
    m = p;''')]),
('b3-stk-new',['C01','C02'],[('stack_memory_resource.hpp','''    if (chunk_header* chunk = freelist.take_atleast(len)) {
      assert(chunk->b == chunk->m);
      // store prev chunk in the 'chunk'
      b = std::exchange(chunk->b, b);
      m = std::exchange(chunk->m, m) + len;
      e = std::exchange(chunk->e, e);
    } else {''','''    if (chunk_header* chunk = freelist.take_atleast(len)) {
      assert(chunk->b == chunk->m);
      std::swap(b, chunk->b);
      std::swap(m, chunk->m);
      std::swap(e, chunk->e);
      m += len;
    } else {''')]),
('b3-stk-count',['C02'],[('stack_memory_resource.hpp','''      chunk_header* prev = nullptr;
      chunk_header* c = top;
      while (c) {
        assert(c->b == c->m);
        if (c->capacity() >= bytes) {
          if (prev)
            prev->freelist_next = c->freelist_next;
          else
            top = c->freelist_next;
          c->freelist_next = nullptr;
          assert(count() == sz_before - 1);
          return c;
        }
        prev = c;
        c = c->freelist_next;
      }
      return nullptr;''','''      (void)sz_before;
      for (chunk_header** link = &top; *link; link = &(*link)->freelist_next) {
        chunk_header* c = *link;
        if (c->capacity() < bytes)
          continue;
        *link = std::exchange(c->freelist_next, nullptr);
        return c;
      }
      return nullptr;''')]),
('b3-mem-newdel',['C03','C04'],[('memory_support.hpp','''      frame_sz += noexport::padding_len<alignof(R)>(frame_sz);
      std::byte* p = (std::byte*)r.allocate(frame_sz + sizeof(R));
      new (p + frame_sz) R(std::move(r));
      return p;''','''      const size_t offset = frame_sz + noexport::padding_len<alignof(R)>(frame_sz);
      void* mem = r.allocate(offset + sizeof(R));
      std::construct_at(reinterpret_cast<R*>(static_cast<std::byte*>(mem) + offset), std::move(r));
      return mem;''')]),
('b3-jump-pool',['C08'],[('thread_pool.hpp','''    task_queue& q = e.select_queue(calculate_operation_hash(task));
    q.attach(this);''','''    const operation_hash_t h = calculate_operation_hash(task);
    e.select_queue(h).attach(static_cast<task_node*>(this));''')]),
]
