// BOUND: one worker; 1-2 scheduling threads (the creating one included) with up to 2-3 items each: coroutine over jump_on(worker) or over a strand (and its copies), function over schedule_to (with and without a memory resource, to the worker, a strand or the queue of one); items that reschedule themselves or schedule others while the worker is being destroyed
// BOUND: a job of the user's own with 2 items; a strand over a queue without a worker
// BOUND: every interleaving of schedulers, worker loop and destruction; 1 spurious wake-up; a failing allocation at any point of schedule_to
// BOUND: one scheduling thread with 8 items
// @must_compile
#include "seq.h"
#include <memory>
#include <kelcoro/thread_pool.hpp>
using namespace dd;
constexpr int MAXI = 10;
struct Item {
  int data;                 // plain data written by the scheduling thread before scheduling
  bool fn;                  // a function: not called when cancelled
  ghost ran, cancelled;
};
static Item items[MAXI];
static std::thread::id wid;
static ghost running, done_count;
static int last_seq[3] = {-1, -1, -1};   // plain: touched by the worker's thread only
static int item_thread[MAXI], item_seq[MAXI];
static int wait_done[MAXI];
// executed on the worker
static void body(int i) {
  VS_ASSERTM(std::this_thread::get_id() == wid, "runs on the worker's thread");
  VS_ASSERTM(++running == 1, "never two at a time");
  VS_ASSERTM(items[i].data == 100 + i, "what was written before scheduling is visible");
  VS_ASSERTM(++items[i].ran == 1 && items[i].cancelled == 0, "resumed once");
  int t = item_thread[i];
  VS_ASSERTM(item_seq[i] > last_seq[t], "in the order it was queued");
  last_seq[t] = item_seq[i];
  vs_yield();
  --running;
  ++done_count;
  vsg_signal(&wait_done[i]);
}
static void was_cancelled(int i) {
  VS_ASSERTM(items[i].data == 100 + i, "what was written before scheduling is visible");
  VS_ASSERTM(++items[i].cancelled == 1 && items[i].ran == 0, "resumed once");
  VS_ASSERTM(++running == 1, "never two at a time");
  --running;
  ++done_count;
  vs_reach("cancelled");
}
template <class E> static Co coro(E& e, int i) {
  Live l;
  schedule_status s = co_await jump_on(e);
  if (s) body(i);
  else {
    VS_ASSERTM(s.what == schedule_errc::cancelled, "ok or cancelled");
    was_cancelled(i);
  }
}
struct Fn {                 // a function object with a lifetime
  Live l;
  int i;
  Fn(int i) : i(i) {}
  Fn(const Fn&) = default;
  void operator()() { body(i); }
};
struct Res {                // counts what is taken from it
  int* balance;
  void* allocate(size_t n) {
    ++*balance;
    return ::operator new(n);
  }
  void deallocate(void* p, size_t) noexcept {
    --*balance;
    ::operator delete(p);
  }
};
static ghost resource_balance;
struct GRes {
  void* allocate(size_t n) {
    void* p = ::operator new(n);
    ++resource_balance;
    return p;
  }
  void deallocate(void* p, size_t) noexcept {
    --resource_balance;
    ::operator delete(p);
  }
};
static void prepare(int i, int t, int seq) {
  items[i].data = 100 + i;
  item_thread[i] = t;
  item_seq[i] = seq;
}
static void put(worker& w, int kind, int i, int t, int seq) {
  prepare(i, t, seq);
  items[i].fn = kind == 1 || kind == 3;
  switch (kind) {
    case 0: coro(w, i); break;
    case 1: schedule_to(w, Fn(i)); break;
    case 2: {
      strand s(w);
      strand s2 = s;
      VS_ASSERT(&s.get_queue() == &s2.get_queue());
      coro(s2, i);          // the strand objects die before the item runs
      break;
    }
    case 3: {
      strand s(w);
      schedule_to(s.get_queue(), Fn(i), with_resource<GRes>{});
      break;
    }
    case 4: {
      any_executor_ref r(w);
      coro(r, i);
      break;
    }
  }
}
static void finish(int n) {
  for (int i = 0; i < n; ++i) {
    if (items[i].fn && !items[i].ran) {
      vs_reach("fn-not-called");     // its frame is gone: see 'live' below
      continue;
    }
    VS_ASSERTM(items[i].ran + items[i].cancelled == 1, "each item is settled exactly once before destruction returns");
  }
  VS_ASSERT(running == 0);
  VS_ASSERTM(live == 0, "every local and function object is destroyed");
  VS_ASSERTM(resource_balance == 0, "frames are given back");
  vs_reach("end");
}
VS_ENTRY(worker_main) {  // @reach=end
  int kinds[3];
  for (int& k : kinds) k = vs_choice("kind", 5);
  {
    worker w;
    wid = w.get_id();
    VS_ASSERT(wid == w.get_thread().get_id() && wid != std::this_thread::get_id());
    for (int i = 0; i < 3; ++i) put(w, kinds[i], i, 0, i);
  }
  finish(3);
}
// an idle worker: items run without anything else happening
VS_ENTRY(worker_runs) {  // @reach=end
  vsrt_spurious_wakes(1);
  {
    worker w;
    wid = w.get_id();
    put(w, vs_choice("kind", 5), 0, 0, 0);
    vsg_await(&wait_done[0]);
    put(w, vs_choice("kind", 5), 1, 0, 1);
    vsg_await(&wait_done[1]);
    VS_ASSERT(items[0].ran == 1 && items[1].ran == 1);
  }
  finish(2);
}
// queued before the destructor, in order: executed with ok, not cancelled, when the worker was alive and idle
VS_ENTRY(worker_two_schedulers) {  // @reach=end
  vsrt_spurious_wakes(1);
  {
    worker w;
    wid = w.get_id();
    int k = vs_choice("kind", 2);
    std::thread a([&] {
      put(w, k, 0, 1, 0);
      put(w, 2, 1, 1, 1);
    });
    put(w, 0, 2, 0, 0);
    put(w, 1, 3, 0, 1);
    a.join();
  }
  finish(4);
}
VS_ENTRY(worker_three_threads) {  // @thorough @reach=end @ttime=600
  {
    worker w;
    wid = w.get_id();
    std::thread a([&] {
      put(w, 0, 0, 1, 0);
      put(w, 1, 1, 1, 1);
    });
    std::thread b([&] {
      put(w, 1, 4, 2, 0);
      put(w, 2, 5, 2, 1);
    });
    put(w, 0, 2, 0, 0);
    put(w, 3, 3, 0, 1);
    a.join();
    b.join();
  }
  finish(6);
}
// an item on the worker schedules others (and itself again) while the worker dies: executed or cancelled, never lost
static Co again(worker& w, int i, int other_kind) {
  Live l;
  schedule_status s = co_await jump_on(w);
  if (!s) {
    was_cancelled(i);
    // nothing else is scheduled then
    for (int k = i + 1; k < i + 3; ++k) ++items[k].ran, ++done_count;
    co_return;
  }
  body(i);
  put(w, other_kind, i + 1, 1, 0);
  prepare(i + 2, 1, 1);
  s = co_await jump_on(w);
  if (s) body(i + 2);
  else was_cancelled(i + 2);
}
VS_ENTRY(worker_reschedule) {  // @reach=end,cancelled,fn-not-called
  int k = vs_choice("kind", 4);
  {
    worker w;
    wid = w.get_id();
    prepare(0, 0, 0);
    again(w, 0, k);
    if (vs_choice("after", 2)) put(w, 1, 3, 0, 1);
    else ++items[3].ran, ++done_count;
  }
  finish(4);
}
VS_ENTRY(worker_reschedule_two) {  // @reach=end,cancelled
  {
    worker w;
    wid = w.get_id();
    prepare(0, 0, 0);
    again(w, 0, 1);
    prepare(3, 2, 0);
    [](worker& w) -> Co {
      Live l;
      schedule_status s = co_await jump_on(w);
      if (!s) {
        was_cancelled(3);
        ++items[4].ran, ++done_count;
        co_return;
      }
      body(3);
      put(w, 0, 4, 2, 1);
    }(w);
  }
  finish(5);
}
// more items from one thread
VS_ENTRY(worker_many) {  // @reach=end
  int shift = vs_choice("shift", 4);
  {
    worker w;
    wid = w.get_id();
    for (int i = 0; i < 8; ++i) put(w, (i + shift) % 4, i, 0, i);
  }
  finish(8);
}
// a chain attached by hand: each node gets its status
VS_ENTRY(worker_attach) {  // @reach=end
  static task_node n[2];
  static ghost hits;
  {
    worker w;
    wid = w.get_id();
    auto mk = [](int i) -> Co {
      struct A {
        int i;
        bool await_ready() { return false; }
        void await_suspend(std::coroutine_handle<> h) { n[i].task = h; }
        void await_resume() {
          VS_ASSERT(n[i].status == schedule_errc::ok && std::this_thread::get_id() == wid);
          VS_ASSERTM(hits++ == i, "in order");
          if (i == 1) vsg_signal(&wait_done[1]);
        }
      };
      co_await A{i};
    };
    mk(0);
    mk(1);
    w.attach(&n[0]);
    strand(w).attach(&n[1]);
    vsg_await(&wait_done[1]);
  }
  VS_ASSERT(hits == 2);
  vs_reach("end");
}
// a job of the user's own, made as documented: executes until the pill, then cancels the rest
static ghost job_runs, job_tasks;
static void own_job(task_queue& q) {
  ++job_runs;
  for (;;) {
    task_node* top = q.pop_all_not_empty();
    while (top) {
      auto h = top->task;
      task_node* n = top;
      top = top->next;
      if (!h) {
        while (top) {
          auto c = top->task;
          top->status = schedule_errc::cancelled;
          top = top->next;
          if (c) c.resume();
        }
        return;
      }
      ++job_tasks;
      (void)n;
      h.resume();
    }
  }
}
VS_ENTRY(worker_own_job) {  // @reach=end
  bool wait = vs_choice("wait", 2);
  {
    worker w(own_job);
    wid = w.get_id();
    put(w, vs_choice("kind", 5), 0, 0, 0);
    put(w, vs_choice("kind", 2), 1, 0, 1);
    if (wait) {
      vsg_await(&wait_done[1]);
      VS_ASSERTM(job_runs == 1 && job_tasks == 2, "the given job executes the tasks");
    }
    const worker& cw = w;
    VS_ASSERT(&cw.get_thread() == &w.get_thread() && cw.get_thread().get_id() == wid);
  }
  VS_ASSERTM(job_runs == 1, "the given job runs, once");
  finish(2);
}
// a strand over a queue that is nobody's: keeps what it gets, in order
VS_ENTRY(strand_of_queue) {  // @reach=end
  task_queue q;
  strand s(q);
  VS_ASSERT(&s.get_queue() == &q);
  wid = std::this_thread::get_id();
  prepare(0, 0, 0);
  prepare(1, 0, 1);
  strand s2 = s;
  coro(s, 0);
  coro(s2, 1);
  VS_ASSERTM(done_count == 0, "not executed by itself");
  task_node* top = q.pop_all();
  while (top) {
    auto h = top->task;
    top = top->next;
    h.resume();
  }
  VS_ASSERT(items[0].ran == 1 && items[1].ran == 1 && q.pop_all() == nullptr);
  finish(2);
}
// idle creation and destruction
VS_ENTRY(worker_idle) {  // @reach=end
  vsrt_spurious_wakes(2);
  { worker w; }
  VS_ASSERT(vs_heap_live() == 0);
  vs_reach("end");
}
// destroyed while another thread's item is being run: its effects are complete when destruction returns
VS_ENTRY(worker_effects_visible) {  // @reach=end
  static int plain;
  static ghost a, b;
  {
    worker w;
    schedule_to(w, [] { plain = 41; ++a; });
    schedule_to(w, [] { plain = plain * 2; ++b; });
  }
  int expect = a ? 41 : 0;
  if (b) expect *= 2;
  VS_ASSERTM(plain == expect, "the effects of what ran are visible");
  vs_reach("end");
}
// an allocation failure reaches the caller of schedule_to, nothing leaks and nothing runs
VS_ENTRY(worker_alloc_fault) {  // @reach=end,failed
  bool failed = false;
  {
    worker w;
    wid = w.get_id();
    prepare(0, 0, 0);
    prepare(1, 0, 1);
    vsrt_alloc_faults(1);
    try {
      schedule_to(w, Fn(0));
    } catch (std::bad_alloc&) {
      failed = true;
      VS_ASSERT(live == 0);
    }
    vsrt_alloc_faults(0);
    schedule_to(w, Fn(1));
    vsg_await(&wait_done[1]);
  }
  VS_ASSERT(items[0].ran == !failed && items[1].ran == 1 && live == 0 && vs_heap_live() == 0);
  if (failed) vs_reach("failed");
  vs_reach("end");
}
// a scheduled function that throws ends the program, it is not lost
static ghost fn_threw;
static void throwing() {
  ++fn_threw;
  throw 7;
}
VS_ENTRY(w_fn_throws) {  // @reach=scheduled
  vs_expect_terminate();
  {
    worker w;
    switch (vs_choice("how", 3)) {
      case 0: schedule_to(w, throwing); break;
      case 1: {
        strand st(w);
        schedule_to(st, throwing);
        break;
      }
      case 2: schedule_to(w, throwing, with_resource<GRes>{}); break;
    }
    vs_reach("scheduled");
  }
  VS_ASSERTM(fn_threw == 0, "an exception of a scheduled function must end the program");
}
// destroyed as soon as its item ran, while the scheduling thread may still be on its way out of attach()
VS_ENTRY(worker_dies_under_scheduler) {  // @reach=end
  int k = vs_choice("kind", 5);
  {
    auto w = std::make_unique<worker>();
    wid = w->get_id();
    worker& wr = *w;
    std::thread a([&wr, k] { put(wr, k, 0, 1, 0); });
    vsg_await(&wait_done[0]);
    w.reset();
    a.join();
  }
  finish(1);
}
