// BOUND: pools of 1-2 workers (3 in the destruction after a stop); 1-2 scheduling threads with up to 2-3 items each: coroutine over jump_on(pool), over a strand, function over schedule(foo, hash), schedule(foo) and schedule_to; items that schedule others, or call request_stop, on pool threads
// BOUND: default pool size for 0-5 reported cores
// BOUND: request_stop called 0-3 times by the owner, a pool thread or another thread, before, while or after scheduling; then destruction or wait_stop; every interleaving; one failing thread creation or allocation at any point of the constructor
// BOUND: pools of 3-4 workers with up to 8 items, stopped or destroyed: schedules with at most 1 preemption
// @must_compile
#include <memory>
#include "seq.h"
#include <kelcoro/thread_pool.hpp>
using namespace dd;
constexpr int MAXI = 10;
struct Item {
  int data;
  ghost ran, cancelled, freed;
  bool scheduled;
};
static Item items[MAXI];
static thread_pool* pool;
static ghost running[6];
static int sig_done[MAXI];
static bool where;
static void body(int i, int q = -1) {
  VS_ASSERTM(pool->is_worker(), "runs on a thread of the pool");
  if (where) vs_reach(pool->workers_range()[0].get_id() == std::this_thread::get_id() ? "q0" : "q1");
  if (q >= 0) {
    VS_ASSERTM(pool->workers_range()[q].get_id() == std::this_thread::get_id(), "runs on the worker of its hash");
    VS_ASSERTM(++running[q] == 1, "never two at a time on one worker");
    vs_yield();
    --running[q];
  }
  VS_ASSERTM(items[i].data == 100 + i, "what was written before scheduling is visible");
  VS_ASSERTM(++items[i].ran == 1 && items[i].cancelled == 0, "resumed once");
  vsg_signal(&sig_done[i]);
}
static void was_cancelled(int i) {
  VS_ASSERTM(items[i].data == 100 + i, "what was written before scheduling is visible");
  VS_ASSERTM(++items[i].cancelled == 1 && items[i].ran == 0, "resumed once");
  vs_reach("cancelled");
}
struct Frame {              // tells when the item's frame is gone
  int i;
  explicit Frame(int i) : i(i) {}
  Frame(const Frame&) = delete;
  ~Frame() { VS_ASSERT(++items[i].freed == 1); }
};
template <class E> static Co coro(E& e, int i, int q = -1) {
  Live l;
  Frame f(i);
  schedule_status s = co_await jump_on(e);
  if (s) body(i, q);
  else {
    VS_ASSERTM(s.what == schedule_errc::cancelled, "ok or cancelled");
    was_cancelled(i);
  }
}
struct Fn {
  Live l;
  int i, q;
  Fn(int i, int q = -1) : i(i), q(q) {}
  Fn(const Fn&) = default;
  void operator()() { body(i, q); }
};
// schedules item i: 0 coroutine on the pool, 1 coroutine on the strand of queue h, 2 function with hash h, 3 schedule_to the pool, 4 function without a hash
static void put(thread_pool& p, int kind, int i, size_t h) {
  items[i].data = 100 + i;
  items[i].scheduled = true;
  int n = (int)p.queues_range().size();
  switch (kind) {
    case 0: coro(p, i); break;
    case 1: {
      strand s = p.get_strand(h);
      coro(s, i, (int)(h % n));
      break;
    }
    case 2: p.schedule(Fn(i, (int)(h % n)), h); break;
    case 3: schedule_to(p, Fn(i)); break;
    case 4: {
      Fn f(i);
      p.schedule(f);
      break;
    }
  }
}
static void finish(int n) {
  for (int i = 0; i < n; ++i)
    if (items[i].scheduled) {
      VS_ASSERTM(items[i].ran + items[i].cancelled <= 1, "resumed at most once");
      if (items[i].freed) VS_ASSERTM(items[i].ran + items[i].cancelled == 1, "settled exactly once");
    }
  VS_ASSERTM(live == 0, "every scheduled item is settled and its frame freed");
  vs_reach("end");
}
// ---- destruction with queued work
VS_ENTRY(pool_destroy_1) {  // @reach=end
  vsrt_spurious_wakes(1);
  int k[3];
  for (int& x : k) x = vs_choice("kind", 5);
  {
    thread_pool p(vs_choice("count", 2));
    pool = &p;
    VS_ASSERT(p.queues_range().size() == 1 && p.workers_range().size() == 1);
    for (int i = 0; i < 3; ++i) put(p, k[i], i, i);
  }
  finish(3);
}
VS_ENTRY(pool_destroy_2) {  // @reach=end
  int k = vs_choice("kind", 2) + 1;
  {
    thread_pool p(2);
    pool = &p;
    VS_ASSERT(p.queues_range().size() == 2 && p.workers_range().size() == 2);
    put(p, k, 0, vs_choice("h", 2));
    put(p, 2, 1, vs_choice("h", 2));
    put(p, 1, 2, 1);
  }
  finish(3);
}
// (the queue depends on the frame's address, which differs in a native run)
static void shift_addresses() {
  for (int n = 16 * vs_choice("shift", 2); n > 0; --n) (void)::operator new(1);
}
VS_ENTRY(pool_jump_on_2) {  // @reach=end @traces=0
  shift_addresses();
  vs_allow_leaks();
  {
    thread_pool p(2);
    pool = &p;
    where = true;
    put(p, 0, 0, 0);
    shift_addresses();
    put(p, 3, 1, 0);
  }
  finish(2);
}
// idle pool: everything scheduled is executed without further events
VS_ENTRY(pool_runs) {  // @reach=end @traces=0
  vsrt_spurious_wakes(1);
  {
    thread_pool p(2);
    pool = &p;
    put(p, vs_choice("kind", 5), 0, 0);
    vsg_await(&sig_done[0]);
    put(p, 2, 1, 1);
    vsg_await(&sig_done[1]);
  }
  finish(2);
  VS_ASSERT(items[0].ran == 1 && items[1].ran == 1);
}
// two scheduling threads
VS_ENTRY(pool_two_schedulers) {  // @reach=end @ttime=600
  {
    thread_pool p(2);
    pool = &p;
    std::thread a([&] {
      put(p, 1, 0, 0);
      put(p, 2, 1, 1);
    });
    put(p, 2, 2, 0);
    a.join();
  }
  finish(3);
}
// items that schedule further work from a pool thread while the pool is destroyed
static void spread_child(thread_pool& p, int i, size_t h) {
  put(p, 1, i, h);
}
VS_ENTRY(pool_reschedule) {  // @reach=end,cancelled
  {
    thread_pool p(2);
    pool = &p;
    size_t to = vs_choice("to", 2);
    size_t from = vs_choice("from", 2);
    p.schedule([&p, to] {
      spread_child(p, 0, to);
      put(p, 2, 1, to + 1);
    }, from);
  }
  finish(2);
}
// ---- stop
static void stop_mix(int n, int items_, int maxstops) {
  int before = vs_choice("before", items_ + 1);
  int stops = 1 + vs_choice("stops", maxstops);
  bool destroy = vs_choice("destroy", 2);
  {
    thread_pool p(n);
    pool = &p;
    for (int i = 0; i < before; ++i) put(p, 1 + i % 2, i, i);
    for (int i = 0; i < stops; ++i) p.request_stop();
    for (int i = before; i < items_; ++i) put(p, 1 + i % 2, i, i);
    if (!destroy) {
      std::move(p).wait_stop();
      for (int i = 0; i < items_; ++i)
        if (items[i].scheduled) VS_ASSERTM(items[i].ran || items[i].cancelled || i % 2, "settled when wait_stop returns");
      VS_ASSERTM(live == 0, "everything queued is settled when wait_stop returns");
      for (auto& t : p.workers_range()) VS_ASSERTM(!t.joinable(), "the threads are over");
    }
  }
  finish(items_);
}
VS_ENTRY(pool_stop_1) { stop_mix(1, 2, 3); }   // @reach=end,cancelled
VS_ENTRY(pool_stop_2) { stop_mix(2, 2, 2); }   // @reach=end,cancelled
VS_ENTRY(pool_stop_2_more) { stop_mix(2, 4, 2); }   // @thorough @reach=end,cancelled @ttime=900
// a stopped pool that still gets work for both queues between stop and destruction
VS_ENTRY(pool_stopped_then_work) {  // @reach=end,cancelled
  {
    thread_pool p(2);
    pool = &p;
    p.request_stop();
    int first = vs_choice("first", 2);
    put(p, 1, 0, first);
    put(p, 1, 1, 1 - first);
    put(p, 2, 2, 0);
  }
  finish(3);
}
// stop, then destruction while another thread keeps scheduling (it ends before the destructor)
VS_ENTRY(pool_stop_concurrent) {  // @reach=end,cancelled
  {
    thread_pool p(2);
    pool = &p;
    std::thread a([&] { p.request_stop(); });
    put(p, 1, 0, 0);
    put(p, 2, 1, 1);
    a.join();
    if (vs_choice("wait", 2)) {
      std::move(p).wait_stop();
      VS_ASSERT(live == 0);
    }
  }
  finish(2);
}
VS_ENTRY(pool_stop_two_threads) {  // @reach=end @preempt=2 @tpreempt=4
  {
    thread_pool p(2);
    pool = &p;
    std::thread a([&] { p.request_stop(); });
    put(p, 1, 0, 0);
    p.request_stop();
    a.join();
    std::move(p).wait_stop();
    VS_ASSERT(live == 0);
  }
  finish(1);
}
// a pool thread asks for the stop
VS_ENTRY(pool_stop_from_worker) {  // @reach=end,cancelled
  bool wait = vs_choice("wait", 2);
  {
    thread_pool p(2);
    pool = &p;
    static int asked;
    size_t h = vs_choice("h", 2);
    p.schedule([&p, h] {
      put(p, 1, 0, h);
      p.request_stop();
      put(p, 1, 1, h);
      vsg_signal(&asked);
    }, h);
    put(p, 1, 2, 1 - h);
    if (wait) {
      vsg_await(&asked);
      std::move(p).wait_stop();
      VS_ASSERTM(live == 0, "everything queued is settled when wait_stop returns");
    }
  }
  finish(3);
}
// after a stop nothing is executed any more that was scheduled after it and after the workers ended
VS_ENTRY(pool_after_stop) {  // @reach=end,cancelled
  {
    thread_pool p(1 + vs_choice("n", 2));
    pool = &p;
    p.request_stop();
    for (auto& t : p.workers_range()) t.join();
    put(p, 1, 0, 0);
    put(p, 1, 1, 1);
    put(p, 2, 2, 1);
    put(p, 0, 3, 0);
  }
  for (int i = 0; i < 4; ++i) VS_ASSERTM(!items[i].ran, "nothing runs after the workers ended");
  VS_ASSERT(items[0].cancelled == 1 && items[1].cancelled == 1 && items[3].cancelled == 1);
  finish(4);
}
VS_ENTRY(pool_stopped_3) {  // @reach=end
  vs_choice("x", 1);
  {
    thread_pool p(3);
    pool = &p;
    p.request_stop();
    put(p, 1, 0, vs_choice("h", 3));
    put(p, 1, 1, 2);
  }
  finish(2);
}
// ---- failures in the constructor
static ghost res_balance, res_calls;
struct CountRes final : std::pmr::memory_resource {
  void* do_allocate(size_t n, size_t a) override {
    void* p = ::operator new(n);
    ++res_balance;
    ++res_calls;
    return p;
  }
  void do_deallocate(void* p, size_t n, size_t a) override {
    --res_balance;
    ::operator delete(p);
  }
  bool do_is_equal(const std::pmr::memory_resource& o) const noexcept override { return this == &o; }
};
VS_ENTRY(pool_ctor_thread_fault) {  // @reach=failed,made
  CountRes r;
  bool failed = false;
  vsrt_thread_faults(1);
  try {
    thread_pool p(1 + vs_choice("n", 3), default_worker_job, r);
    vsrt_thread_faults(0);
    pool = &p;
    put(p, 2, 0, 0);
  } catch (...) {
    failed = true;
  }
  VS_ASSERTM(res_balance == 0 && vs_heap_live() == 0, "memory is given back");
  VS_ASSERTM(live == 0 && (failed || items[0].ran == 1), "the failure is reported, or the pool works");
  vs_reach(failed ? "failed" : "made");
}
VS_ENTRY(pool_ctor_alloc_fault) {  // @reach=failed,made
  CountRes r;
  bool failed = false;
  vsrt_alloc_faults(1);
  try {
    thread_pool p(2, default_worker_job, r);
    vsrt_alloc_faults(0);
    pool = &p;
    put(p, 2, 0, 1);
  } catch (std::bad_alloc&) {
    failed = true;
  }
  VS_ASSERTM(res_balance == 0 && vs_heap_live() == 0, "memory is given back");
  VS_ASSERT(live == 0 && (failed || items[0].ran == 1));
  vs_reach(failed ? "failed" : "made");
}
// an allocation failure while scheduling reaches the caller and loses nothing else
VS_ENTRY(pool_schedule_alloc_fault) {  // @reach=failed,made
  bool failed = false;
  {
    thread_pool p(2);
    pool = &p;
    put(p, 1, 0, 0);
    vsrt_alloc_faults(1);
    items[1].data = 101;
    try {
      p.schedule(Fn(1), 0);
    } catch (std::bad_alloc&) {
      failed = true;
    }
    vsrt_alloc_faults(0);
    put(p, 2, 2, 0);
  }
  VS_ASSERT(live == 0 && vs_heap_live() == 0);
  VS_ASSERT(items[1].ran <= !failed);
  VS_ASSERT(items[0].ran + items[0].cancelled == 1);
  vs_reach(failed ? "failed" : "made");
}
// request_stop itself needs memory: when that fails the caller knows, and the pool still shuts down
VS_ENTRY(pool_stop_alloc_fault) {  // @reach=failed,made
  bool failed = false;
  {
    thread_pool p(2);
    pool = &p;
    put(p, 1, 0, 0);
    vsrt_alloc_faults(1);
    try {
      p.request_stop();
    } catch (std::bad_alloc&) {
      failed = true;
    }
    vsrt_alloc_faults(0);
    put(p, 1, 1, 1);
  }
  VS_ASSERT(live == 0 && vs_heap_live() == 0);
  VS_ASSERT(items[0].ran + items[0].cancelled == 1 && items[1].ran + items[1].cancelled == 1);
  vs_reach(failed ? "failed" : "made");
}
// however many cores are reported (0: not known), and with no workers asked for, there is somebody to do the work
static int cores;
unsigned std::thread::hardware_concurrency() noexcept { return (unsigned)cores; }
VS_ENTRY(pool_default_count) {  // @reach=end,one,more @traces=0
  cores = vs_choice("cores", 6);
  size_t n = thread_pool::default_thread_count();
  VS_ASSERTM(n >= 1 && n <= (size_t)(cores ? cores : 1), "at least one worker, no more than there are cores");
  {
    auto make = [](int zero) {
      if (zero) return new thread_pool(0);
      return new thread_pool();
    };
    bool zero = vs_choice("zero", 2);
    std::unique_ptr<thread_pool> p(make(zero));
    pool = p.get();
    const thread_pool& cp = *p;
    VS_ASSERT(cp.workers_range().size() == (zero ? 1 : n) && cp.queues_range().size() == cp.workers_range().size());
    VS_ASSERT(cp.workers_range().data() == p->workers_range().data() && cp.queues_range().data() == p->queues_range().data());
    vs_reach(cp.workers_range().size() > 1 ? "more" : "one");
    if (n < 3) {
      put(*p, 4, 0, 0);
      vsg_await(&sig_done[0]);
      VS_ASSERT(items[0].ran == 1);
    }
  }
  finish(1);
}
VS_ENTRY(pool_is_worker) {  // @reach=end
  static ghost inside;
  {
    thread_pool p(2);
    VS_ASSERTM(!p.is_worker(), "the owner is not a worker");
    p.schedule([&p] { inside += p.is_worker() ? 1 : 10; }, 0);
    p.schedule([&p] { inside += p.is_worker() ? 1 : 10; }, 1);
    VS_ASSERT(p.is_worker(p.workers_range()[0].get_id()) && p.is_worker(p.workers_range()[1].get_id()));
  }
  VS_ASSERT(inside <= 2);
  vs_reach("end");
}

// more workers and items, fewer schedules
static void larger(int n, int count) {
  int how = vs_choice("how", 3);
  {
    thread_pool p(n);
    pool = &p;
    VS_ASSERT((int)p.queues_range().size() == n && (int)p.workers_range().size() == n);
    if (how == 1) p.request_stop();
    for (int i = 0; i < count; ++i) put(p, 1 + i % 2, i, i % 3 ? i : n - 1);
    if (how == 2) {
      p.request_stop();
      std::move(p).wait_stop();
      VS_ASSERTM(live == 0, "everything queued is settled when wait_stop returns");
    }
  }
  finish(count);
}
VS_ENTRY(pool_larger_3) { larger(3, 6); }   // @reach=end,cancelled @preempt=1 @tpreempt=2 @time=100
VS_ENTRY(pool_larger_1) { larger(1, 8); }   // @reach=end,cancelled @preempt=2 @tpreempt=4 @time=100
// a scheduled function that throws ends the program, it is not lost
static ghost fn_threw;
VS_ENTRY(pool_fn_throws) {  // @reach=scheduled,returned
  vs_expect_terminate();
  {
    thread_pool p(2);
    int stop = vs_choice("stop", 3);
    if (stop == 1) p.request_stop();
    p.schedule([] {
      ++fn_threw;
      throw 7;
    }, (operation_hash_t)vs_choice("hash", 2));
    vs_reach("scheduled");
    if (stop == 2) p.request_stop();
  }
  vs_reach("returned");
  VS_ASSERTM(fn_threw == 0, "an exception of a scheduled function must end the program");
}
// destroyed as soon as its item ran, while the scheduling thread may still be on its way out
VS_ENTRY(pool_dies_under_scheduler) {  // @reach=end @traces=0
  int k = vs_choice("kind", 5), n = 1 + vs_choice("two", 2);
  {
    auto p = std::make_unique<thread_pool>(n);
    pool = p.get();
    thread_pool& r = *p;
    std::thread a([&r, k] { put(r, k, 0, 1); });
    vsg_await(&sig_done[0]);
    p.reset();
    a.join();
  }
  finish(1);
}
// as before, by request_stop() and the pool's end
VS_ENTRY(pool_stops_under_scheduler) {  // @reach=end
  {
    auto p = std::make_unique<thread_pool>(1);
    pool = p.get();
    thread_pool& r = *p;
    std::thread a([&r] { put(r, 2, 0, 0); });
    vsg_await(&sig_done[0]);
    p->request_stop();
    std::move(*p).wait_stop();
    p.reset();
    a.join();
  }
  finish(1);
}
