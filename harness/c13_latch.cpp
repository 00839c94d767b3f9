// BOUND: 2-3 threads, up to 3 waiters, counters and amounts 0..3, every interleaving of wait, arrive_and_wait and count_down; up to 2 spurious weak compare-exchange failures
// BOUND: one thread: counters up to 65535 or that close to latch::max(), amounts up to 65535 (symbolic) in histories of 3 (quick) / 4 (thorough) operations; up to 10 waiters
// BOUND: executors: inline, recording (checks where the waiter is resumed), queue drained later by the main thread; the latch outlives all of it
// @must_compile
#include "pre.h"
#include <kelcoro/latch.hpp>
using namespace dd;
static ghost resumed[12], in_exec[4], arrived;   // in_exec: per thread
#ifdef VS_THOROUGH
constexpr int STEPS = 4;
#else
constexpr int STEPS = 3;
#endif
static int total;
static int data[4];                             // written before count_down
// resumes in place, telling that the resumption came through the executor
struct RecExe {
  void attach(task_node* n) {
    int t = vs_self();
    ++in_exec[t];
    n->task.resume();
    --in_exec[t];
  }
};
// keeps nodes until drained
struct LateExe {
  std::mutex m;
  task_node* first = nullptr;
  int n = 0;
  void attach(task_node* x) {
    std::lock_guard l(m);
    x->next = first;
    first = x;
    ++n;
  }
  void drain() {
    for (;;) {
      task_node* x;
      {
        std::lock_guard l(m);
        x = first;
        if (x) first = x->next;
      }
      if (!x) return;
      int t = vs_self();
      ++in_exec[t];
      x->task.resume();
      --in_exec[t];
    }
  }
};
struct Co {
  struct promise_type {
    Co get_return_object() noexcept { return {std::coroutine_handle<promise_type>::from_promise(*this)}; }
    std::suspend_always initial_suspend() noexcept { return {}; }
    std::suspend_never final_suspend() noexcept { return {}; }
    void return_void() noexcept {}
    void unhandled_exception() noexcept { vs_assert(0, "unexpected exception"); }
  };
  std::coroutine_handle<promise_type> h;
};
static void arrive(int who, int n) {
  if (n > 0) data[who] = 4;
  arrived += n;
}
static void all_done(latch& l, int i, bool suspended_possible) {
  VS_ASSERTM(arrived == total, "released only after the counter reached zero");
  VS_ASSERTM(l.ready(), "ready after release");
  for (int k = 0; k < 3; ++k) VS_ASSERTM(data[k] == 4 || data[k] == 0, "what was done before count_down is visible");
  VS_ASSERTM(++resumed[i] == 1, "each waiter is released exactly once");
}
static Co waiter(latch& l, int i) {
  bool before = false;
  co_await l.wait();
  all_done(l, i, before);
}
static Co arriver(latch& l, int i, int n) {
  arrive(i, n);
  co_await l.arrive_and_wait(n);
  VS_ASSERTM(in_exec[vs_self()] > 0, "resumed by the latch's executor");
  all_done(l, i, true);
}
// a waiter surely suspended goes through the executor
static Co waiter_first(latch& l, int i) {
  VS_ASSERT(!l.ready());
  co_await l.wait();
  VS_ASSERTM(in_exec[vs_self()] > 0, "resumed by the latch's executor");
  all_done(l, i, true);
}
static void count(latch& l, int who, int n) {
  arrive(who, n);
  l.count_down(n);
}
// two threads: waiting against counting down
VS_ENTRY(latch_wait_count) {  // @reach=end
  RecExe e;
  total = vs_choice("count", 3);
  latch l(total, e);
  VS_ASSERTM(l.ready() == (total == 0), "ready exactly when the counter is zero");
  {
    std::thread t([&] {
      if (total >= 1) count(l, 1, 1);
      if (total == 2) count(l, 1, 1);
    });
    waiter(l, 0).h.resume();
    if (vs_choice("second", 2)) waiter(l, 2).h.resume();
    else resumed[2] = 1;
    t.join();
  }
  VS_ASSERT(l.ready());
  VS_ASSERTM(resumed[0] == 1 && resumed[2] == 1, "no waiter is lost");
  vs_reach("end");
}
VS_ENTRY(latch_three) {  // @reach=end
  RecExe e;
  total = 3;
  latch l(total, e);
  {
    std::thread t([&] { arriver(l, 1, 1).h.resume(); });
    std::thread u([&] { count(l, 2, 1); });
    int k = vs_choice("main", 3);
    if (k == 0) {
      count(l, 0, 1);
      waiter(l, 0).h.resume();
    } else if (k == 1)
      arriver(l, 0, 1).h.resume();
    else {
      waiter_first(l, 3).h.resume();
      arriver(l, 0, 1).h.resume();
      VS_ASSERT(true);
    }
    t.join();
    u.join();
    VS_ASSERT(l.ready());
    VS_ASSERTM(resumed[0] == 1 && resumed[1] == 1 && resumed[3] == (k == 2), "no waiter is lost");
  }
  vs_reach("end");
}
// amounts of zero and more than one
VS_ENTRY(latch_amounts) {  // @reach=end
  RecExe e;
  int n1 = vs_choice("n1", 3), n2 = vs_choice("n2", 3);
  total = n1 + n2;
  latch l(total, e);
  {
    int k = vs_choice("kind", 2);
    std::thread t([&] {
      if (k) arriver(l, 1, n1).h.resume();
      else count(l, 1, n1);
    });
    arriver(l, 0, n2).h.resume();
    t.join();
    VS_ASSERT(l.ready() && resumed[0] == 1 && resumed[1] == k);
  }
  vs_reach("end");
}
// never reaching zero: nobody is released
VS_ENTRY(latch_not_ready) {  // @reach=end
  RecExe e;
  total = 3;
  latch l(total, e);
  Co w = waiter_first(l, 0), v = arriver(l, 2, 1);
  {
    std::thread t([&] { count(l, 1, 1); });
    w.h.resume();
    v.h.resume();
    t.join();
  }
  VS_ASSERTM(!l.ready() && resumed[0] == 0 && resumed[2] == 0, "nobody is released before the counter reaches zero");
  count(l, 0, 1);
  VS_ASSERT(l.ready() && resumed[0] == 1 && resumed[2] == 1);
  waiter(l, 3).h.resume();
  VS_ASSERTM(resumed[3] == 1, "wait on a ready latch continues immediately");
  vs_reach("end");
}
// the executor runs the waiters later
VS_ENTRY(latch_late) {  // @reach=end
  LateExe e;
  total = 2;
  latch l(total, e);
  {
    std::thread t([&] { count(l, 1, 1); });
    std::thread u([&] { waiter(l, 0).h.resume(); });
    arriver(l, 2, 1).h.resume();
    VS_ASSERTM(resumed[2] == 0, "an arriving waiter is resumed by the executor only");
    t.join();
    u.join();
    int n = e.n + (int)resumed[0];
    e.drain();
    VS_ASSERTM(n == 2 && resumed[0] == 1 && resumed[2] == 1, "each waiter reaches the executor once");
  }
  vs_reach("end");
}
VS_ENTRY(latch_weak) {  // @reach=end @traces=0
  vsrt_weak_cas_failures(2);
  RecExe e;
  total = 1;
  latch l(total, e);
  {
    std::thread t([&] { count(l, 1, 1); });
    std::thread u([&] { waiter(l, 2).h.resume(); });
    waiter(l, 0).h.resume();
    t.join();
    u.join();
  }
  VS_ASSERT(resumed[0] == 1 && resumed[2] == 1);
  vs_reach("end");
}
// the waiter's frame is gone once it was resumed: several waiters against one count_down
VS_ENTRY(latch_many_waiters) {  // @reach=end
  this_thread_executor_t e;
  total = 1;
  latch l(total, e);
  {
    std::thread t([&] { waiter(l, 1).h.resume(); });
    std::thread u([&] { waiter(l, 2).h.resume(); });
    count(l, 0, 1);
    t.join();
    u.join();
  }
  VS_ASSERT(resumed[1] == 1 && resumed[2] == 1);
  vs_reach("end");
}
VS_ENTRY(latch_api) {
  this_thread_executor_t e;
  total = 1;
  latch l(1, e);
  any_executor_ref r = l.get_executor();
  Co c = waiter_first(l, 0);
  task_node n{.task = c.h};
  c.h.destroy();
  VS_ASSERT(latch::max() == std::numeric_limits<ptrdiff_t>::max());
  l.count_down(0);
  VS_ASSERT(!l.ready());
  l.count_down();
  VS_ASSERT(l.ready());
  l.count_down(0);
  VS_ASSERT(l.ready());
}
// every counter and every amount (symbolic), with waiters coming in between
VS_ENTRY(latch_symbolic) {  // @reach=end,ready,waited
  RecExe e;
  long left = (long)vs_sym("count", 16);
  if (vs_choice("huge", 2)) left = (long)latch::max() - left;
  latch l(left, e);
  int waiting = 0, ids = 0;
  bool later = false;
  for (int s = 0; s < STEPS; ++s) {
    VS_ASSERTM(l.ready() == (left == 0), "ready exactly when the counter is zero");
    if (left == 0) {
      vs_reach("ready");
      later = true;
    }
    switch (vs_choice("op", 3)) {
      case 0: {
        int i = ids++;
        [](latch& l, int i) -> Co {
          co_await l.wait();
          VS_ASSERTM(l.ready(), "ready after release");
          ++resumed[i];
        }(l, i).h.resume();
        break;
      }
      case 1: {
        long n = (long)vs_sym("n", 16);
        vs_assume(n <= left);
        left -= n;
        l.count_down(n);
        break;
      }
      case 2: {
        long n = (long)vs_sym("n", 16);
        vs_assume(n <= left);
        left -= n;
        int i = ids++;
        [](latch& l, int i, long n) -> Co {
          co_await l.arrive_and_wait(n);
          VS_ASSERTM(l.ready() && in_exec[vs_self()] > 0, "ready, on the latch's executor");
          ++resumed[i];
        }(l, i, n).h.resume();
        break;
      }
    }
    for (int i = 0; i < ids; ++i)
      VS_ASSERTM(resumed[i] == (left == 0), "waiters are released exactly when the counter reaches zero");
    if (ids && left) vs_reach("waited");
  }
  VS_ASSERT(l.ready() == (left == 0));
  l.count_down(left);
  for (int i = 0; i < ids; ++i) VS_ASSERTM(resumed[i] == 1, "no waiter is lost");
  VS_ASSERT(l.ready());
  vs_reach("end");
}
// more waiters than the threads above have
VS_ENTRY(latch_crowd) {  // @reach=end
  int n = vs_choice("n", 11), arrivers = vs_choice("arrivers", n + 1);
  LateExe e;
  latch l(arrivers + 1, e);
  for (int i = 0; i < n; ++i) {
    if (i < arrivers)
      [](latch& l, int i) -> Co {
        co_await l.arrive_and_wait();
        ++resumed[i];
      }(l, i).h.resume();
    else
      [](latch& l, int i) -> Co {
        co_await l.wait();
        ++resumed[i];
      }(l, i).h.resume();
  }
  VS_ASSERT(!l.ready() && e.n == 0);
  l.count_down();
  VS_ASSERTM(l.ready() && e.n == n, "every waiter reaches the executor once");
  e.drain();
  for (int i = 0; i < n; ++i) VS_ASSERTM(resumed[i] == 1, "no waiter is lost");
  vs_reach("end");
}
