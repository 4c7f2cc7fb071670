#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=["include/kelcoro/" + f for f in files],
                               state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mech],
                               observe_at=list(observe), hook_needed=hook)))

p("C01", "Stack memory resource hands out disjoint, aligned, in-bounds blocks",
  "For every history of allocations and last-in-first-out deallocations on a stack memory resource (including reclaiming everything at once and moving the resource), each block handed out is aligned to the coroutine-frame alignment, has at least the requested number of bytes inside the initial buffer or a heap chunk the resource holds, and overlaps neither another block that is still live nor the resource's own bookkeeping. Deallocating the most recent live block leaves every older live block, and the resource's record of it, unchanged.",
  ["inputs", "histories"], "all request sizes (below 2^40), all initial buffers (any size, also none), all chunk chains, all LIFO histories",
  "the test runs 3000 random histories with sizes below 500 and three initial buffers; whether an offset or a chunk link is right for every size, fill level and chunk chain is an inductive fact about the representation",
  ["stack_memory_resource.hpp", "memory_support.hpp"],
  [("bump pointer and chunk header chain", "stack_resource::allocate / deallocate / drop_cur_chunk"), ("padding", "noexport::padding_len"), ("first fit in the list of free chunks", "freelist_t::take_atleast")],
  [("b, m, e", "current chunk begin / top / end", "stack_resource"), ("chunk_header", "state of the previous chunk, kept in front of each heap chunk", "stack_resource")],
  ["pointers returned by allocate", "later allocations after deallocate"])

p("C02", "Stack memory resource reuses memory and frees each chunk exactly once",
  "Every heap chunk a stack memory resource obtains is given back to the heap exactly once, when the resource is destroyed or overwritten by move assignment, and never while the resource can still use it; a moved-from resource owns nothing and the destination owns everything. Memory freed by deallocation, or reclaimed all at once, is available again for later allocations, the initial buffer included, and a free chunk that is large enough is preferred to asking the heap for more.",
  ["histories", "inputs"], "all chain lengths of used and free chunks, all sizes, all histories of allocate, deallocate, reclaim, move, destroy",
  "no test counts heap chunks or looks at which memory is reused; leaks and double frees of chunks depend on chain shape and history length",
  ["stack_memory_resource.hpp"],
  [("free list of chunks", "freelist_t::push / take_atleast / drop_all"), ("reclaim", "stack_resource::reuse_memory"), ("move", "stack_resource(stack_resource&&), operator=")],
  [("freelist", "heap chunks not in use", "stack_resource")], ["operator new[] / operator delete[] calls", "allocate results after reuse"])

p("C03", "A coroutine frame returns to its own memory resource with its own size",
  "When a coroutine is created with a memory resource, its frame is obtained from exactly that resource, the request is large enough for the frame plus the kept copy of the resource, and that copy is suitably aligned and does not overlap the frame. When the frame is destroyed it is given back to the same resource exactly once, with the pointer the resource returned and the size it was asked for, after the kept copy is destroyed and without touching the memory afterwards.",
  ["inputs", "configurations"], "all frame sizes, resources that are empty, trivially destructible, non-trivially destructible and over-aligned up to max_align_t, default constructed or passed as the last argument",
  "tests use a few frame sizes and a new/delete backed resource which ignores the size, so a wrong size or offset shows nowhere",
  ["memory_support.hpp"],
  [("padding and trailing resource copy", "overload_new_delete::do_allocate / operator new / operator delete"), ("reference to a resource", "chunk_from")],
  [("trailing copy of the resource", "placed after the frame, at the next multiple of its alignment", "overload_new_delete")], ["arguments of the resource's allocate and deallocate"])

p("C04", "Polymorphic resources: the selected one is used once and gets its memory back",
  "A coroutine allocated through the polymorphic resource uses the resource passed for it on the current thread if there is one, and that selection applies to exactly one coroutine; otherwise it uses the current default, which setting replaces while returning the previous one. Every allocation made through a selected resource (coroutine frames, the arrays of a thread pool) is returned to that same resource with the same size and alignment, and a thread pool reports the resource it was constructed with.",
  ["inputs", "histories", "configurations"], "all resources, sizes, array lengths, and all interleavings of passing, default changes and coroutine creation on a thread",
  "tests only ever use new/delete backed resources, for which returning memory to the wrong resource is invisible",
  ["memory_support.hpp", "noexport/fixed_array.hpp", "thread_pool.hpp"],
  [("one-shot selection", "pmr::polymorphic_resource()"), ("default", "set_default_resource / get_default_resource"), ("array ownership", "fixed_array")],
  [("passed_resource", "thread-local one-shot selection", "polymorphic_resource")], ["calls on the std::pmr::memory_resource objects"])

p("C05", "The task queue loses, duplicates and reorders nothing",
  "Every node (or linked list of nodes) pushed to a task queue is returned by exactly one later pop, and one pop returns everything pushed and not yet popped, in push order, as a properly terminated list. This holds for all interleavings of pushers and poppers, and a consumer blocked on an empty queue is always woken once something is pushed.",
  ["schedules", "inputs", "histories"], "any number of pushing and popping threads, lists of any length, any interleaving of the critical sections",
  "tests sample a few thousand schedules and never look at order; a lost tail, a lost wakeup or an access outside the lock needs one specific schedule or list shape",
  ["thread_pool.hpp"],
  [("mutex protected intrusive list", "task_queue::push / push_list / pop_all / pop_all_not_empty"), ("condition variable", "task_queue::not_empty")],
  [("first, last", "ends of the list; last is meaningful only if first is set", "task_queue")], ["lists returned by pop_all and pop_all_not_empty"])

p("C06", "A worker runs each queued task once, in order, then cancels the rest",
  "A worker's loop resumes each task taken from its queue exactly once, in queue order and with status ok, until it meets the stop marker; every task that was queued behind the marker is then resumed exactly once, in order, with status cancelled, and the loop ends. A task's node is never touched after the task is resumed, because resuming may destroy it.",
  ["inputs", "histories", "schedules"], "batches of any number and length, the marker at any position, any behaviour of the resumed tasks",
  "tests check totals on real threads; reading a node after its task was resumed, or skipping a task next to the marker, only shows for certain lifetimes and positions",
  ["thread_pool.hpp", "executor_interface.hpp"],
  [("worker loop", "default_worker_job"), ("cancellation", "noexport::cancel_tasks")],
  [("task_node::status", "what the resumed coroutine learns", "task_node")], ["status observed by each resumed coroutine and the order of resumption"])

p("C07", "Stopping a worker or a pool leaves no task behind and joins every thread",
  "After a worker or thread pool is destroyed, or a stopped pool has been waited for, every one of its threads has been joined exactly once and every task ever attached to it has been resumed: before the stop marker normally, otherwise as cancelled. Requesting a stop reaches every queue of the pool, and may be repeated and combined with destruction; a pool constructor that fails half way stops and joins the threads it had started.",
  ["histories", "schedules", "fault_sequences"], "any thread count, any queue contents, stop requested any number of times, failure to start the i-th thread for any i",
  "tests exercise one shutdown order with healthy threads; leftovers after the last join and failures in the constructor are not exercised",
  ["thread_pool.hpp"],
  [("destruction", "worker::~worker, thread_pool::~thread_pool"), ("stop", "thread_pool::request_stop / wait_stop, deadpill_pusher"), ("constructor rollback", "thread_pool::thread_pool")],
  [("deadpill", "stop marker: node without task", "task_node")], ["join calls, statuses of resumed tasks"])

p("C08", "Pool placement is in range and stable per operation hash",
  "A task given to a thread pool is pushed, exactly once, onto one of that pool's own queues, and the choice depends only on its operation hash and the pool's size, so equal hashes always meet the same worker; a strand obtained for a hash pushes to that same queue. Jumping to a pool, attaching to it, scheduling a callable and attaching a list all follow this, and a list of tasks is attached completely, each task once.",
  ["inputs", "configurations"], "all hashes, handles, pool sizes (also a requested size of zero) and list lengths",
  "tests never look at which queue a task went to; an out-of-range index needs a particular hash and pool size",
  ["thread_pool.hpp", "operation_hash.hpp"],
  [("selection by hash", "thread_pool::select_queue / attach / schedule / get_strand, jump_on_thread_pool"), ("list distribution", "attach_list(thread_pool&)"), ("hash of a handle", "operation_hash")],
  [], ["the queue that receives the node"])

p("C09", "The lock-free stack is linearizable: no node is lost or duplicated",
  "Every node pushed to the lock-free stack, alone or as part of a list, by any thread is returned by exactly one take-all, and a take-all returns everything pushed before it and not yet taken, newest first; each operation takes effect atomically between its call and return. What a pusher wrote to a node before pushing is visible to the thread that takes it, and a pusher does not touch a node once it has been published.",
  ["schedules", "histories"], "any number of threads, any interleaving of the atomic operations, lists of any length, spurious failures included",
  "a lost update or a touch after publication needs a particular interleaving around a compare-and-swap that the tests practically never hit",
  ["nonowner_lockfree_stack.hpp"],
  [("compare-and-swap loop", "nonowner_lockfree_stack::push / push_stack"), ("exchange", "nonowner_lockfree_stack::try_pop_all")],
  [("top", "head of the intrusive list", "nonowner_lockfree_stack")], ["lists returned by try_pop_all"])

p("C10", "A latch releases every waiter exactly once, and only at zero",
  "A coroutine waiting on a latch is resumed (through the latch's executor, or by not suspending at all) exactly once, only after the counter has reached zero, and no waiter is left behind once the counter is zero and all calls have returned, for every interleaving of count-downs, waits and combined arrive-and-wait calls. A waiter's frame is not touched by the waiting call once it has been made available to the thread that resumes it.",
  ["schedules", "inputs"], "any number of waiters and decrements, any interleaving of their atomic steps, any initial count",
  "the lost-wakeup and use-after-resume windows are a few instructions wide between publishing the node and looking at the counter",
  ["latch.hpp", "nonowner_lockfree_stack.hpp", "executor_interface.hpp"],
  [("publish, then look at the counter again", "latch::wait_awaiter::await_suspend"), ("publish, then count down", "latch::arrive_and_wait_awaiter::await_suspend"), ("last decrement wakes", "latch::count_down / wakeup_all")],
  [("counter", "remaining count", "latch"), ("stack", "published waiters", "latch")], ["attach calls on the executor"])

p("C11", "Notifying an event wakes each current subscriber once with its own input",
  "Notifying an event schedules every coroutine subscribed at that moment exactly once on the given executor, each one seeing its own copy of the notified value, and reports whether there was any; subscribers are then forgotten, and later subscriptions wait for the next notification. This holds for any number of subscribers and concurrent notifications and subscriptions, and a subscriber's memory is not touched after it was handed to the executor.",
  ["schedules", "inputs", "histories"], "any number of subscribers, values and concurrent notifiers",
  "tests use one or two subscribers and never an executor that destroys the subscriber at once",
  ["events.hpp", "executor_interface.hpp", "nonowner_lockfree_stack.hpp"],
  [("take all, then attach each", "event::notify_all"), ("subscription", "event::subscribe")],
  [("subscribers", "stack of waiting nodes", "event")], ["attach calls, value seen by each subscriber"])

p("C12", "Waiting for all or any of several events resumes the waiter exactly once",
  "A coroutine waiting for all of several events is resumed exactly once, after every one of them has occurred, and gets each event's value in that event's place; a coroutine waiting for any of several events is resumed exactly once, by the first occurrence, with that event's index and value, and later occurrences of the others have no effect on it.",
  ["schedules", "histories"], "every order in which the events occur, occurrences repeated any number of times",
  "the order of occurrences relative to the counter decides who resumes; tests do not run these combinations to completion",
  ["events.hpp"],
  [("occurrence counter", "when_all(event...), when_any(event...)"), ("one-shot callback", "event::set_callback")],
  [("count", "number of occurred events", "awaiters of when_all / when_any")], ["resume of the waiting coroutine, value of the co_await expression"])

p("C13", "async_task: result before ready, frame destroyed exactly once",
  "An async task's result or exception is completely stored before the task reports ready, so a consumer that sees ready (or was woken from waiting) always gets that result or that exception; a blocked consumer is always woken. The frame is destroyed exactly once, by whichever of the coroutine and its owner lets go last, in every interleaving of completion with detaching, destruction and moves, and it is not touched afterwards.",
  ["schedules", "histories"], "every interleaving of completion with wait, get, ready, detach, move and destruction",
  "use-after-free or double destruction needs the two final decrements to interleave in one particular way",
  ["async_task.hpp", "common.hpp"],
  [("publish then release", "async_task_promise::destroy_if_consumer_dead_t"), ("shared ownership of two", "async_task_promise::ref_count, async_task::detach")],
  [("ready", "result is stored", "async_task_promise"), ("ref_count", "owner and coroutine", "async_task_promise")], ["frame destruction, values from get"])

p("C14", "logical_thread: cancellable, joined, frame destroyed exactly once",
  "Destroying or move-assigning over a joinable logical thread first requests its stop and then waits until the coroutine has finished; joining returns only after it has finished, and a stop request is visible to the coroutine through its stop token from then on. Whatever the order of finishing, joining and detaching, the frame is destroyed exactly once, never while the coroutine is still running in it, and stopping several threads requests every stop before the first join.",
  ["schedules", "histories"], "every interleaving of completion with join, detach, request_stop, move and destruction; any number of threads given to stop",
  "the detach/finish race is a single exchange; tests reach it by luck only",
  ["logical_thread.hpp"],
  [("first one informs, second one destroys", "two_way_bound::try_inform, set_stopped_and_wait_or_destroy, logical_thread::detach"), ("cancel and join", "logical_thread::try_cancel_and_join / join"), ("stop all", "stop()")],
  [("stopped", "one of the two parties has let go", "logical_thread_promise"), ("stop_requested_", "stop flag", "logical_thread_promise")], ["frame destruction, stop_requested()"])

p("C15", "A task is lazy, runs once, and resumes its awaiter with its outcome",
  "A task does nothing until it is awaited or started; then its body runs at most once, its context sees owner, start and end notifications in that order and each once per run, and on completion control goes to exactly the coroutine that awaits it, which receives the returned value or the thrown exception. Awaiting a finished task does not run it again; a started-and-detached task destroys itself at its end unless asked to stop there; the frame is destroyed exactly once by its owner otherwise, also across moves.",
  ["histories", "inputs"], "all orders of co_await, wait, get, start_and_detach, detach, release, move and destruction; value, reference, void and exceptional outcomes",
  "tests await each task once in one place; the combinations of ways to start, outcomes and ownership changes are not covered",
  ["task.hpp", "common.hpp"],
  [("continuation and symmetric transfer", "task::prepare_task_to_start, task_promise::final_suspend, transfer_control_to"), ("outcome", "task_promise::result_or_rethrow"), ("ownership", "task move, destructor, release, detach, start_and_detach")],
  [("who_waits", "continuation", "task_promise"), ("exception", "failed outcome", "task_promise")], ["resumption of the awaiter, context callbacks, frame destruction"])

p("C16", "when_all resumes its owner once, after all children, with every outcome",
  "Awaiting when_all of any number of tasks resumes the awaiting side exactly once, after every child has finished, whichever threads they finish on and also when they finish before when_all has started the others; the i-th result is the i-th task's value or exception and nothing else. No child's completion touches the shared state after the last one has handed control back.",
  ["schedules", "inputs"], "any number of children, any order and any interleaving of their completions, successes and failures",
  "tests use four children and a pool; the wrong child resuming or a slot mixed up needs a specific completion order",
  ["algorithm.hpp", "task.hpp", "common.hpp", "noexport/expected.hpp"],
  [("countdown, last one transfers", "noexport::job_for_when_all"), ("slots", "when_all")],
  [("count", "children not yet finished", "when_all"), ("results", "one slot per child", "when_all")], ["result of co_await when_all(...)"])

p("C17", "when_any gives the first success, or the last failure if all fail",
  "Awaiting when_any resumes the awaiting side exactly once: as soon as the first child succeeds, with that child's index and value, or, if every child fails, after the last failure with an exception; a later completion never changes the outcome and never touches the state of a when_any that is gone. The result always names a child.",
  ["schedules", "inputs"], "any number of children, any order and interleaving of their completions, including completion while the others are still being started",
  "which completion comes first relative to the owner's destruction is schedule dependent, and tests accept any index where it is",
  ["algorithm.hpp", "task.hpp", "common.hpp", "noexport/expected.hpp"],
  [("first result takes the owner", "when_any_state::set_result / set_exception"), ("weak reference to the state", "noexport::job_for_when_any, when_any")],
  [("owner", "taken by the first success", "when_any_state"), ("count_waiters", "children that have not failed", "when_any_state")], ["result of co_await when_any(...)"])

p("C18", "A generator yields exactly its elements, in order, nested ranges included",
  "Iterating a generator produces exactly the values its body yields, in order, with the elements of nested generators and ranges in the position of the nested yield at any depth, and then the end; a yielded value stays valid, and changes made through a yielded reference are seen by the body, until the next increment. An exception from a body reaches the caller of the increment, a failed nested generator is skipped when iteration is continued; empty, cleared, released and moved-from generators are empty ranges, and moving, swapping or resetting a generator keeps iteration going in its new place.",
  ["inputs", "programs", "histories"], "all bodies and nesting depths, partially consumed nested generators, exceptions at any depth, moves, swaps, clear, release, reset between any two increments",
  "tests use a fixed set of bodies; the links between root, current worker and owners must hold for any depth and history",
  ["generator.hpp", "noexport/generators_common.hpp"],
  [("worker chain", "generator_promise::root / current_worker / owner / skip_this_leaf, attach_leaf"), ("current value", "yield_block, hold_value_until_resume, set_result"), ("handle ownership", "generator swap, clear, release, reset")],
  [("root, current_worker, owner", "chain of active nested generators", "generator_promise"), ("current_result", "address of the current value, null at the end", "generator")], ["iterator dereference and comparison with end()"])

p("C19", "A channel delivers its elements in order to its awaiting consumer",
  "Awaiting the next element of a channel suspends the consumer and resumes it exactly once, with the next element in yield order (nested channels and ranges included at any depth) or with the end. An exception from the body ends the iteration and is thrown to the consumer once; a failed nested channel is skipped when iteration is continued; empty, cleared, released and moved-from channels are empty, and moving, swapping or resetting a channel keeps iteration going in its new place.",
  ["inputs", "programs", "histories"], "all bodies, nesting depths, exceptions at any depth, consumers that change between elements, moves and clears between any two elements",
  "same chain invariants as generators plus the consumer link; tests use fixed bodies",
  ["channel.hpp", "noexport/generators_common.hpp"],
  [("worker chain", "channel_promise::root / current_worker / owner / skip_this_leaf, attach_leaf"), ("consumer link", "channel::starter / next_awaiter, channel_promise::consumer_handle"), ("exception slot", "channel_promise::unhandled_exception, channel_iterator destructor")],
  [("_consumer, handle", "channel object being iterated and the coroutine that waits", "channel_promise / channel"), ("exception", "not yet delivered exception", "channel")], ["values of co_await ++it / next(), exceptions"])

p("C20", "An inplace generator yields its elements in order and owns its frame",
  "Iterating an inplace generator produces exactly the yielded values in order, starting with the first one which is computed on creation, and then the end; by-reference yields are seen by the body. Its frame is destroyed exactly once; a moved-from inplace generator is an empty range, and swapped ones exchange their sequences.",
  ["inputs", "programs", "histories"], "all bodies, all histories of increments, moves and swaps",
  "tests use two bodies and one move",
  ["inplace_generator.hpp"],
  [("current value", "inplace_generator_promise::yield_value / set_result"), ("ownership", "inplace_generator move, swap, destructor")],
  [("current_result", "address of the current value", "inplace_generator_promise")], ["iterator dereference and comparison with end()"])

p("C21", "Executors: each node is handed over once and not touched afterwards",
  "Jumping to an executor attaches the suspended coroutine to it exactly once, on that executor, and afterwards does not touch the node; the awaited expression reports the status the executor stored. Attaching a linked list attaches every node exactly once, in order, reading each link before its node is handed over; reversing a list keeps exactly the same nodes in reverse order; a type-erased executor reference behaves as the executor it refers to.",
  ["inputs", "histories"], "all list lengths, all executors, including ones that run and destroy the task inside attach",
  "an executor that destroys the node inside attach, and lists longer than a few nodes, are not exercised",
  ["executor_interface.hpp", "common.hpp"],
  [("node in the awaiter", "create_node_and_attach"), ("list traversal", "attach_list, reverse_list"), ("type erasure", "any_executor_ref"), ("executors", "this_thread_executor_t, new_thread_executor_t, noop_executor_t")],
  [("task_node", "intrusive node: next, task, status", "task_node")], ["attach calls on the executor, status returned from co_await jump_on"])

p("C22", "A returned value reaches the consumer exactly as returned",
  "What a coroutine returns is what its consumer gets: by value, by reference (the same object), void, through the in-place return slot, or as an exception, including types that are not default constructible or not trivially destructible; the stored result is constructed once (for a trivially destructible type, over a default value its slot may hold before) and destroyed exactly once, also when it is never consumed.",
  ["inputs", "histories"], "all values, value / reference / void results, in-place construction with and without prior content, results consumed or not",
  "tests return a handful of values; double destruction or a missing one of a stored result is invisible with trivial types",
  ["common.hpp", "task.hpp", "noexport/expected.hpp"],
  [("result storage", "return_block (three forms)"), ("in-place return", "return_place, rvo")],
  [("storage", "result", "return_block")], ["value of co_await / get"])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
