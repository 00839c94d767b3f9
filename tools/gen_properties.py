#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so the wording is edited in one place)."""
import json, os
P = []
H = "include/kelcoro/"
def p(id, title, statement, over, text, why, files, mech, observe=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=[H + f for f in files],
                     mechanism=[dict(name=n, where=H + w) for n, w in mech],
                     observe_at=observe or ["public API of the header, from a harness program"],
                     hook_needed=None)))

p("C01", "A generator produces exactly its yielded sequence, nested ranges flattened",
  "Iterating a generator delivers exactly the values its body yields, each once and in order; yielding the elements of another range (another generator, fresh or already partly consumed, a generator with another memory resource, or any other range), to any nesting depth and however many are empty, splices that range's remaining elements in place, and then the body continues. "
  "After the last value iteration ends and the generator is empty; breaking out of a loop and calling begin() again continues with the next value, and begin() on an empty generator equals end() without running anything. "
  "A generator runs nothing before the first begin().",
  ["inputs", "programs", "histories"],
  "every shape of nesting (depth, lengths, empties, kinds of nested range) and every point at which the consumer stops and resumes, for every element value",
  "The unit tests iterate a handful of fixed generators; the number of nesting shapes times consumer break points is never enumerated and element values are constants.",
  ["generator.hpp", "noexport/generators_common.hpp"],
  [("attach_leaf / skip_this_leaf worker hand-over", "noexport/generators_common.hpp"), ("generator_promise::final_awaiter", "generator.hpp"), ("generator_iterator::operator++", "generator.hpp")])

p("C02", "A generator's exception reaches the consumer; only the failing range is lost",
  "An exception escaping a generator body, or a range nested in it at any depth, is delivered to the code advancing the iteration, with the original exception object, after all earlier values were delivered. "
  "When it came from a nested range, only the innermost failing range is skipped: calling begin() again continues the enclosing body right after that nested yield; when it came from the outermost body the generator is empty afterwards and iterates nothing. "
  "Every local object of the abandoned bodies is destroyed exactly once.",
  ["inputs", "programs", "fault_sequences"],
  "every nesting shape, every position (depth and index) at which a throw happens, several throws in one iteration, and consumers that continue after each",
  "Tests throw at one or two fixed places; which level throws and at which index, and what the consumer does next, is combinatorial.",
  ["generator.hpp", "noexport/generators_common.hpp"],
  [("generator_promise::unhandled_exception", "generator.hpp"), ("skip_this_leaf", "generator.hpp")])

p("C03", "A generator object may be moved, swapped, cleared or dropped at any point",
  "At any point of iteration a generator can be moved, swapped, released and re-attached with reset, cleared, assigned over or destroyed: iteration through the object that now holds the coroutine continues with exactly the next value, and values are never delivered to, or read from, another object. "
  "Every coroutine body (outer or nested) and every object alive in it is destroyed exactly once, its memory is freed exactly once, and nothing is used after it is freed. "
  "After clear() or release() the generator is empty and begin() equals end().",
  ["histories", "inputs", "programs"],
  "every sequence (within the bound) of move/swap/clear/release/reset/destroy and advance operations over two or more generator objects",
  "Tests perform single moves/clears at fixed moments; lifetime errors need specific operation histories and are invisible without memory checking.",
  ["generator.hpp", "noexport/generators_common.hpp"],
  [("generator::swap / prepare_to_start re-targets the promise's consumer", "generator.hpp"), ("generator::clear", "generator.hpp"), ("attach_leaf owns the nested generator", "noexport/generators_common.hpp")])

p("C04", "An in-place generator produces its sequence, ends, throws and moves correctly",
  "An in-place generator computes its first value on creation and then one per increment, delivers exactly the yielded values in order and ends after the last one; an exception thrown while advancing reaches the consumer and ends the iteration. "
  "Move construction leaves an empty, safely destructible generator behind, move assignment and swap exchange the iterations together with the iterators referring to them, and every body is destroyed exactly once without leak or use after free.",
  ["inputs", "histories", "fault_sequences"],
  "every length, value, throw position and every sequence of move/swap/advance/destroy operations",
  "Tests cover one or two fixed sequences and never the exception/move histories.",
  ["inplace_generator.hpp"],
  [("inplace_generator move constructor with empty_generator()", "inplace_generator.hpp"), ("inplace_generator_iterator::operator++", "inplace_generator.hpp")])

p("C05", "A channel delivers exactly its sequence to the awaiting consumer",
  "A coroutine consuming a channel, by begin()/++ or by next(), receives exactly the values the channel body yields, each once and in order, whether or not the body suspends for something else (and is resumed from another thread) before a yield; yielded elements of other channels, generators or ranges, to any depth, are spliced in place. "
  "After the last value the consumer sees the end (next() gives null), the channel is empty and further begin()/next() complete immediately; stopping and starting again, also from another consumer coroutine, continues with the next value. "
  "Nothing of the body runs before it is awaited.",
  ["inputs", "programs", "histories", "schedules"],
  "every nesting shape, suspension pattern and consumer stop/continue pattern within the bound",
  "Tests run a few fixed channels on fixed executors.",
  ["channel.hpp", "noexport/generators_common.hpp"],
  [("channel_promise::final_awaiter / yield_value transfer to the consumer", "channel.hpp"), ("attach_leaf", "noexport/generators_common.hpp"), ("channel::starter / next_awaiter", "channel.hpp")])

p("C06", "A channel's exception reaches the consumer once; only the failing part is lost",
  "An exception escaping a channel body or a channel nested in it ends the current iteration (the consumer sees the end) and is delivered exactly once: thrown when the iteration through an iterator ends, or returned by take_exception() when next() is used. "
  "When it came from a nested channel, starting again continues the enclosing body right after that nested yield; when it came from the outermost body the channel is empty. "
  "All abandoned local objects are destroyed exactly once and nothing leaks.",
  ["inputs", "programs", "fault_sequences"],
  "every nesting shape and throw position, repeated throws, consumers that continue or stop",
  "Tests throw at one fixed place.",
  ["channel.hpp"],
  [("channel_promise::unhandled_exception", "channel.hpp"), ("channel_iterator destructor", "channel.hpp")])

p("C07", "A channel object may be moved, swapped, cleared or dropped at any point",
  "Between two awaits of the consumer a channel can be moved, swapped, cleared, released and re-attached, or destroyed: iteration through the object that now holds the coroutine, also through the iterators that belong to it, continues with exactly the next value and never touches another object. "
  "Every body and object is destroyed exactly once, nothing leaks or is used after free; after clear() or release() the channel is empty and begin()/next() see the end.",
  ["histories", "inputs", "programs"],
  "every sequence of move/swap/clear/release/reset/destroy and advance operations within the bound",
  "Tests never exercise these histories under memory checking.",
  ["channel.hpp"],
  [("channel::swap", "channel.hpp"), ("channel::starter re-targets the consumer", "channel.hpp"), ("channel::clear", "channel.hpp")])

p("C08", "A task runs once when awaited and hands its result or exception to the waiter",
  "A task body does not start until it is awaited (or started otherwise); when awaited it runs exactly once, and the awaiting coroutine continues exactly once after it finished, receiving exactly the returned value or the thrown exception, also through chains of tasks and when the body suspends and is resumed elsewhere. "
  "wait() never throws and leaves the outcome to be read later; get() gives the same outcome from non-coroutine code. "
  "A task dropped before start runs nothing; moving transfers the coroutine; every frame and result object is destroyed exactly once.",
  ["inputs", "programs", "schedules", "fault_sequences"],
  "every result value, chain depth, throw position, suspension pattern and resuming thread schedule within the bound",
  "Tests await a few fixed tasks; schedules between finishing and waiting threads are sampled by luck.",
  ["task.hpp", "common.hpp"],
  [("task::remember_waiter_and_start_task_t", "task.hpp"), ("task_promise::final_suspend transfers to the waiter", "task.hpp"), ("result_or_rethrow", "task.hpp")])

p("C09", "Detached tasks complete and clean up; task context callbacks fire as documented",
  "A task started detached runs to completion with its result or exception ignored and frees itself exactly once, or, when asked to stop at its end, stays finished for the caller to destroy; an empty task gives a null handle. "
  "The task's context is told about its owner (when it has one) before its start, about its start before the body runs, and about its end exactly once after the body finished, also when it ends by exception and when several tasks are awaited together.",
  ["inputs", "programs", "schedules"],
  "every combination of body suspension, exception, result type, detach mode and combinator",
  "Tests check one context with one fixed program.",
  ["task.hpp"],
  [("task::start_and_detach / detach", "task.hpp"), ("prepare_task_to_start", "task.hpp"), ("task_promise::final_suspend calls on_end", "task.hpp")])

p("C10", "An async task's result is seen exactly when it is done, and its frame freed once",
  "An async task starts at once; get() and wait() return only after the body finished and every write of the body (result included) is visible to the waiter, ready() is true only then and then stays true, and get() gives the returned value or rethrows the body's exception. "
  "Whatever the interleaving of the body's end with get(), wait(), ready(), detach(), moves or destruction, the waiter is woken, the frame is freed exactly once, by whichever side is last, and never used afterwards.",
  ["schedules", "inputs", "fault_sequences"],
  "every interleaving of the finishing thread and the owner thread, with every outcome",
  "Tests run a few thread schedules chosen by the OS and cannot force the window between the result, the notification and the reference drop.",
  ["async_task.hpp"],
  [("async_task_promise::destroy_if_consumer_dead_t", "async_task.hpp"), ("async_task::detach reference counting", "async_task.hpp"), ("ready flag wait/notify", "async_task.hpp")])

p("C11", "A logical thread can be joined, stopped or detached with no leak or lost wake-up",
  "A logical thread starts at once; join() returns only after the body finished, with all its effects visible, and frees it exactly once; after detach() the frame is freed exactly once when the body finishes, whichever comes first. "
  "request_stop() is seen by the body's stop token (and never seen without a request), with everything done before it; destroying or assigning over a running logical thread requests stop and joins it; stop(...) of several requests stop on all before joining any. An exception escaping its body ends the program.",
  ["schedules", "histories"],
  "every interleaving of the body's end with join, detach, request_stop, move and destruction",
  "The decisive windows (end of body against detach/join) are a few instructions wide and are not reachable by running.",
  ["logical_thread.hpp"],
  [("two_way_bound", "logical_thread.hpp"), ("set_stopped_and_wait_or_destroy", "logical_thread.hpp"), ("try_cancel_and_join", "logical_thread.hpp")])

p("C12", "The lock-free stack loses and duplicates no node under any interleaving",
  "Whatever threads push nodes, push whole chains and pop everything concurrently, every node pushed is returned by exactly one pop-all (or is still in the stack), each returned chain is properly terminated, nodes pushed by one thread come out newest first within a chain, and what a thread wrote to a node before pushing it is visible to the popper without a data race.",
  ["schedules", "inputs"],
  "every interleaving of pushers and poppers (including spurious compare-exchange failure) within the bound",
  "No test exercises the stack concurrently, and compare-exchange windows cannot be forced.",
  ["nonowner_lockfree_stack.hpp"],
  [("push / push_stack compare-exchange loop", "nonowner_lockfree_stack.hpp"), ("try_pop_all", "nonowner_lockfree_stack.hpp")])

p("C13", "A latch releases every waiter exactly once, and only after it reaches zero",
  "Coroutines waiting on a latch are resumed, each exactly once and on the latch's executor, if and only if the counter has reached zero; a wait on a ready latch continues immediately; ready() is true exactly when the counter is zero. "
  "This holds for every interleaving of wait, arrive_and_wait and count_down with any amounts, with no lost waiter, no double resume, no use of a waiter after it was resumed, and everything done before a count_down visible after the wait.",
  ["schedules", "inputs", "histories"],
  "every interleaving of waiting and counting threads, and every initial count and decrements",
  "A waiter registering while the last count-down happens is a window of a few instructions; tests only hit the common order.",
  ["latch.hpp", "nonowner_lockfree_stack.hpp"],
  [("wait_awaiter re-checks after push", "latch.hpp"), ("count_down / wakeup_all", "latch.hpp"), ("arrive_and_wait_awaiter", "latch.hpp")])

p("C14", "An event wakes every subscriber once and gives each the notified value",
  "notify_all resumes exactly the coroutines and callbacks subscribed before it, each exactly once and with the value passed (each receiver its own copy), through the given executor, and returns whether it woke anyone; a subscriber that subscribes again is woken by the next notification only; if copying the value fails, nobody is resumed, all of them keep waiting and the caller sees the failure. "
  "No subscription is lost, duplicated or raced when subscribing, callbacks and notifications run concurrently.",
  ["schedules", "inputs", "histories"],
  "every interleaving of subscribers and notifiers, number of subscribers and value, within the bound",
  "Tests subscribe and notify in fixed sequences; the races are sampled by luck.",
  ["events.hpp", "nonowner_lockfree_stack.hpp", "executor_interface.hpp"],
  [("event::notify_all", "events.hpp"), ("event::subscribe awaiter", "events.hpp"), ("attach_list", "executor_interface.hpp")])

p("C15", "Waiting for all or any of several events resumes once with the right inputs",
  "A coroutine waiting for all of several events is resumed exactly once, after every one of them was notified, with each event's own value in its place; one waiting for any is resumed exactly once by the first notification and told which event it was and its value, later notifications having no effect on it. "
  "This holds for every order and interleaving of the notifications with each other and with the subscription itself, without data race, leak or use of the waiter after it was resumed.",
  ["schedules", "inputs"],
  "every order and interleaving of two or three notifications against the subscription",
  "Tests notify one after another on a fixed schedule; notification during subscription never happens in them.",
  ["events.hpp"],
  [("when_all(event...) counter", "events.hpp"), ("when_any(event...) shared counter", "events.hpp")])

p("C16", "when_all completes once after all tasks and reports each outcome in its place",
  "Awaiting when_all over tasks (a fixed list or a vector, possibly empty) starts each task exactly once and continues the waiter exactly once, only after every task finished, with the i-th entry holding exactly the i-th task's value or exception. "
  "This holds whichever tasks finish immediately, later, or concurrently on other threads and in any order, with no data race, leak or use after free, and failing tasks do not disturb the others.",
  ["schedules", "inputs", "fault_sequences"],
  "every mix of immediate, delayed and failing tasks, every completion order and interleaving within the bound",
  "Completion-order and last-finisher races are sampled by the OS in tests, with fixed task mixes.",
  ["algorithm.hpp", "task.hpp"],
  [("job_for_when_all counter", "algorithm.hpp"), ("when_all", "algorithm.hpp")])

p("C17", "when_any continues once with the first success, or fails only if all fail",
  "Awaiting when_any over tasks continues the waiter exactly once: with the result, in the alternative of the task that produced it, of the first task that finishes without exception, or, only if all tasks fail, with an exception of one of them (the last to fail). "
  "Late finishers change nothing and touch nothing freed, including when the waiter or the whole when_any has been destroyed already; when a task succeeds at once the tasks after it are not started at all; all resources are freed exactly once.",
  ["schedules", "inputs", "fault_sequences"],
  "every mix of immediate, delayed and failing tasks, every completion order and interleaving, and early destruction",
  "The winner race and late finishers after destruction depend on schedules tests do not control.",
  ["algorithm.hpp"],
  [("when_any_state::set_result / set_exception", "algorithm.hpp"), ("job_for_when_any weak ownership", "algorithm.hpp")])

p("C18", "A task queue is FIFO, loses nothing and always wakes its blocked consumer",
  "Nodes pushed to a task queue, singly or as chains, by any threads are handed out exactly once; each push or chain keeps its own order and pushes that happen one after another come out in that order. "
  "pop_all never blocks and takes everything present; pop_all_not_empty returns only with a non-empty chain and never sleeps forever while a node is queued, with spurious wake-ups harmless.",
  ["schedules", "inputs"],
  "every interleaving of producers and consumers, spurious wake-ups included, within the bound",
  "Lost wake-ups and reorderings need specific interleavings of lock, wait and notify.",
  ["thread_pool.hpp"],
  [("task_queue::push_list notifies under lock", "thread_pool.hpp"), ("pop_all_not_empty wait loop", "thread_pool.hpp")])

p("C19", "A worker runs its tasks in order on one thread, cancelling leftovers on death",
  "Work scheduled on a worker, directly, through a strand or with schedule_to, is resumed exactly once on the worker's own thread, in the order it was queued and never two at a time. "
  "When the worker is destroyed, everything queued before is either executed with an ok status or resumed with a cancelled status, exactly once and before destruction returns, and functions whose scheduling was cancelled are not called; an exception escaping a scheduled function ends the program; nothing is lost, leaked or raced.",
  ["schedules", "inputs", "histories"],
  "every interleaving of schedulers, worker loop and destruction within the bound",
  "Tests sample a few schedules, and destruction with pending work is timing dependent.",
  ["thread_pool.hpp"],
  [("default_worker_job", "thread_pool.hpp"), ("worker::~worker dead pill", "thread_pool.hpp"), ("cancel_tasks", "thread_pool.hpp"), ("strand", "thread_pool.hpp")])

p("C20", "A thread pool runs or cancels each scheduled task exactly once and shuts down",
  "Every coroutine or function handed to a thread pool is resumed exactly once: on a pool thread with ok status, or with cancelled status when the pool stops or is destroyed first (functions are then not called); everything queued is settled before destruction, or wait_stop, returns. "
  "request_stop may be called any number of times from any thread, pool threads included, before, while or without work; stopping and destruction always terminate with no lost or doubly resumed task, data race, leak or use after free. "
  "A pool has at least one worker, however many are asked for or reported by the system. If starting a thread or obtaining memory fails in the constructor, the already started threads are ended and joined and the failure is reported to the caller.",
  ["schedules", "inputs", "fault_sequences"],
  "every interleaving of scheduling, worker loops, request_stop/wait_stop and destruction within the bound, and a failure at any resource acquisition",
  "Shutdown races and constructor failures are not reachable by the tests' schedules.",
  ["thread_pool.hpp"],
  [("thread_pool::~thread_pool", "thread_pool.hpp"), ("request_stop / deadpill_pusher", "thread_pool.hpp"), ("wait_stop", "thread_pool.hpp"), ("thread_pool constructor scope_exit", "thread_pool.hpp")])

p("C21", "Executors resume each attached coroutine once, with the reported status",
  "Awaiting jump_on(executor) resumes the coroutine exactly once in the executor's context and reports whether it was executed or cancelled; a type-erased executor reference and its copies behave as the executor itself. "
  "Attaching a list attaches every node of it exactly once in list order (also when attaching runs and frees the node at once; over a thread pool the nodes go to its workers in turn), reversing a list yields exactly its nodes in the opposite order, and the inline, new-thread and no-op executors respectively run in place, run on one other thread, and never run.",
  ["inputs", "programs", "schedules"],
  "every list length, executor kind and status within the bound",
  "Tests use each executor once or twice.",
  ["executor_interface.hpp", "thread_pool.hpp"],
  [("create_node_and_attach", "executor_interface.hpp"), ("attach_list", "executor_interface.hpp"), ("any_executor_ref", "executor_interface.hpp"), ("reverse_list", "executor_interface.hpp")])

p("C22", "Coroutine frames come from and return to the resource passed with the coroutine",
  "A coroutine whose last parameter is a memory-resource argument, or whose type names a resource, takes its frame from exactly that resource and gives it back, exactly once, to the same resource (or to the copy moved into the frame) with the same pointer and size, whatever the resource's size, alignment and triviality and whatever the frame's size; coroutines without one use the default heap. "
  "The frame never overlaps the stored resource, the memory used never exceeds what was requested, resource objects are constructed and destroyed in pairs, and a failing allocation reaches the caller with nothing leaked.",
  ["inputs", "configurations", "fault_sequences"],
  "every frame size (symbolic) and every class of resource type: empty, trivial, non-trivial, over-sized, default-constructible or passed",
  "Tests compare a few static types; sizes and padding residues are never varied.",
  ["memory_support.hpp"],
  [("overload_new_delete::do_allocate / operator delete", "memory_support.hpp"), ("coroutine_traits specialisations", "memory_support.hpp"), ("padding_len", "memory_support.hpp")])

p("C23", "The polymorphic coroutine resource follows pass_resource and the set default",
  "The next polymorphic-resource coroutine created on a thread after pass_resource uses the passed resource, exactly that one coroutine and only on that thread; all others use the library-wide default, which is what set_default_resource last installed (it returns the previous one), initially the new/delete resource. "
  "Each frame is returned to the resource it was taken from with the same size and alignment, even if the default changes or the frame dies on another thread.",
  ["histories", "inputs", "schedules"],
  "every sequence of pass_resource, set_default_resource, coroutine creation and destruction within the bound, over one or two threads",
  "Tests check static types only, never a history of passes and default changes.",
  ["memory_support.hpp"],
  [("polymorphic_resource constructor", "memory_support.hpp"), ("set_default_resource / pass_resource", "memory_support.hpp")])

p("C24", "A stack resource hands out disjoint aligned memory and reuses it after release",
  "For every sequence of allocations of any sizes and last-in-first-out deallocations (also across chunk boundaries), moves of the resource and bulk reuse, each allocation is aligned, lies fully inside the initial buffer or memory owned by the resource, and overlaps no live allocation. "
  "Memory of deallocated allocations is reused instead of requesting more; bulk reuse makes all memory, the initial buffer included, available again; all memory obtained from the heap is released exactly once at destruction, and nothing else is freed.",
  ["inputs", "histories"],
  "every history of allocate/deallocate/move/reuse operations with every size (symbolic) within the bound",
  "Tests use fixed sizes and a few histories; chunk-boundary and reuse behaviour depends on exact arithmetic over sizes.",
  ["stack_memory_resource.hpp"],
  [("stack_resource::allocate chunk switch", "stack_memory_resource.hpp"), ("stack_resource::deallocate chunk drop", "stack_memory_resource.hpp"), ("freelist_t::take_atleast", "stack_memory_resource.hpp"), ("reuse_memory", "stack_memory_resource.hpp")])

p("C25", "A coroutine's result is stored, delivered and destroyed exactly as returned",
  "Whatever the result type (trivial, non-trivial, not default constructible, move-only, reference, void), the caller receives exactly the object returned with co_return, or the object built in the coroutine's return place when it returns the in-place marker, or a reference to the very object returned for reference results. "
  "Result objects are constructed once and destroyed exactly once, also when the coroutine throws, is destroyed before finishing, or its result is never read; an outcome holder reports a value or an error exactly as it was given one, and reading its error gives that error.",
  ["inputs", "configurations", "fault_sequences"],
  "every class of result type, value, return style and early end",
  "Tests use a few result types and never look at construction/destruction balance.",
  ["common.hpp", "task.hpp", "noexport/expected.hpp"],
  [("return_block specialisations", "common.hpp"), ("this_coro::return_place", "task.hpp"), ("expected", "noexport/expected.hpp")])

p("C26", "Operation hashes keep one operation on one worker and always select a queue",
  "Scheduling with a given hash always selects the same existing queue of a pool for every hash value and pool size, a strand obtained for a hash runs on that same worker, and equal hashes never run concurrently or on different threads. "
  "The hash of a coroutine stays the same while it runs under one owner, equals what it observes about itself by awaiting it, and does not depend on the memory resource type; a task awaited by a coroutine has the hash of that coroutine's plain handle, and a nested channel has the hash of its outermost channel.",
  ["inputs", "configurations", "schedules"],
  "every hash value and pool size within the bound, and every kind of coroutine",
  "Tests call the pool with whatever hashes addresses give; boundary hash values and handle kinds are not covered.",
  ["operation_hash.hpp", "thread_pool.hpp", "task.hpp", "channel.hpp", "memory_support.hpp"],
  [("thread_pool::select_queue", "thread_pool.hpp"), ("operation_hash specialisations", "operation_hash.hpp")])

p("C27", "A pool takes all its storage from the resource it was given and returns it there",
  "A thread pool constructed with a memory resource obtains its internal arrays and the frames of functions scheduled through it from that resource only, returns each block to the same resource with the same size and alignment, and reports that resource; without one it uses the default resource. "
  "Elements are constructed and destroyed exactly once, also across moves of the storage and when construction fails half way.",
  ["configurations", "inputs", "fault_sequences"],
  "every storage size within the bound, default and custom resources, failing allocations, moves",
  "No test passes a custom resource to a pool.",
  ["noexport/fixed_array.hpp", "thread_pool.hpp"],
  [("fixed_array constructor/destructor", "noexport/fixed_array.hpp"), ("thread_pool::schedule with pool resource", "thread_pool.hpp")])

p("C28", "Coroutine building blocks transfer, suspend and destroy exactly as documented",
  "A job runs at once to its end or first suspension and frees itself on completion (an exception escaping it ends the program); awaiting destroy frees the awaiting coroutine and all its live objects exactly once and never resumes it; transferring control resumes the given coroutine exactly once (and, for a null target, simply continues, or just stops when destroying itself first). "
  "suspend_and suspends and calls the function once with the coroutine's own handle, continuing according to what it returns; awaiting the handle gives the coroutine's own handle without suspending, and a scope exit runs its action exactly once on every way out.",
  ["programs", "inputs", "fault_sequences"],
  "every combination of these primitives, targets (null or not) and exits within the bound",
  "Tests use each primitive once, without lifetime checking.",
  ["common.hpp", "job.hpp"],
  [("destroy_and_transfer_control_to", "common.hpp"), ("transfer_control_to", "common.hpp"), ("suspend_and", "common.hpp"), ("job_promise", "job.hpp"), ("scope_exit", "common.hpp")])

p("C29", "Consumers see the producer's object: references alias, copies do not",
  "What an iteration delivers refers to the very object the producer yielded when it yields an rvalue, by reference, or has a reference element type: the consumer's writes (also through an output iterator) are seen by the producer and by ranges spliced in, and moving out moves the producer's object exactly once. "
  "Yielding a constant or lvalue object delivers a private copy that lives until the producer is resumed, so the producer's object is not changed by the consumer; no extra copies are made.",
  ["inputs", "programs"],
  "every kind of yield, element type and coroutine kind (generator, channel, in-place generator), for every value written back",
  "Tests check a few aliasing cases with constants, and never count copies or lifetimes.",
  ["noexport/generators_common.hpp", "generator.hpp", "channel.hpp", "inplace_generator.hpp"],
  [("by_ref / yield_value overloads", "generator.hpp"), ("hold_value_until_resume", "noexport/generators_common.hpp"), ("generator_output_iterator", "generator.hpp")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
