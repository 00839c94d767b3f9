// BOUND: 1-3 tasks; each, freely chosen: value at once, throw at once, suspend (once or twice) and then value or throw; values symbolic
// BOUND: single thread: suspended tasks resumed in every order, the waiter destroyed at any point or not; threads: each suspended task resumed by its own thread (also while when_any is still starting tasks), every interleaving
// BOUND: result types int, void, non-trivial object, move-only object; the awaiting coroutine ends right after when_any
// BOUND: single thread: 6 tasks, each suspended or not, all but one (any) or all failing, resumed in every cyclic order
// @must_compile
#include "seq.h"
#include <kelcoro/algorithm.hpp>
using namespace dd;
struct Obj {
  Live l;
  int v = 0;
  Obj() = default;
  explicit Obj(int v) : v(v) {}
  Obj(const Obj&) = default;
  Obj(Obj&& o) noexcept : v(o.v) { o.v = -1; }
  Obj& operator=(const Obj&) = default;
};
struct Mo {                  // can only be moved
  Live l;
  int v = 0;
  Mo() = default;
  explicit Mo(int v) : v(v) {}
  Mo(Mo&& o) noexcept : v(o.v) { o.v = -1; }
  Mo& operator=(Mo&& o) noexcept {
    v = std::exchange(o.v, -1);
    return *this;
  }
};
constexpr int N = 6;
struct Slot {
  std::coroutine_handle<> hand;
  bool waiting;
  int handed, handed2;
  int data;
  int val;
  ghost started, finished;
  int fail, susp;
};
static Slot slot[N];
static bool threads;
static ghost order;              // counts finished tasks
static ghost fin_order[N];
struct Wait {
  Slot& s;
  int* sig;
  static bool await_ready() noexcept { return false; }
  void await_suspend(std::coroutine_handle<> h) noexcept {
    s.hand = h;
    s.waiting = true;
    if (threads) vsg_signal(sig);
  }
  static void await_resume() noexcept {}
};
template <class R> static task<R> job_(int i) {
  Slot& s = slot[i];
  Live l;
  ++s.started;
  if (s.susp >= 1) co_await Wait{s, &s.handed};
  s.data = 1;
  if (s.susp >= 2) co_await Wait{s, &s.handed2};
  s.data = 2;
  ++s.finished;
  fin_order[i] = ++order;
  if (s.fail) throw Boom{s.val};
  if constexpr (!std::is_void_v<R>) co_return R(s.val);
}
static ghost continued;
static int winner = -1, winner_fail;
template <size_t I, class V> static void check1(V& v) {
  if constexpr (I < std::variant_size_v<V>) {
    if (v.index() == I) {
      Slot& s = slot[I - 1];
      winner = I - 1;
      auto& e = std::get<I>(v);
      VS_ASSERTM(s.started == 1 && s.finished == 1 && s.data == 2, "the reported task finished");
      VS_ASSERTM(e.has_value() == !s.fail, "reported in the alternative of the task that produced it");
      winner_fail = s.fail;
      if (s.fail) {
        try {
          std::rethrow_exception(e.error());
        } catch (Boom& b) {
          VS_ASSERTM(b.tag == s.val, "an exception of that task");
        }
      } else {
        if constexpr (requires { (*e).v; }) VS_ASSERTM((*e).v == s.val, "the task's own value");
        else if constexpr (requires { *e + 1; }) VS_ASSERTM(*e == s.val, "the task's own value");
      }
    }
  }
}
template <class V> static void check(V& v) {
  VS_ASSERTM(v.index() != 0, "never monostate");
  winner = -1;
  check1<1>(v);
  check1<2>(v);
  check1<3>(v);
  check1<4>(v);
  check1<5>(v);
  check1<6>(v);
  VS_ASSERT(winner >= 0);
}
struct Root {
  struct promise_type {
    Root get_return_object() noexcept { return {std::coroutine_handle<promise_type>::from_promise(*this)}; }
    std::suspend_never initial_suspend() noexcept { return {}; }
    std::suspend_never final_suspend() noexcept { return {}; }
    void return_void() noexcept {}
    void unhandled_exception() noexcept { vs_assert(0, "unexpected exception"); }
  };
  std::coroutine_handle<> h;
};
static Root any1() {
  Live l;
  {
    auto v = co_await when_any(job_<int>(0));
    check(v);
  }
  ++continued;
}
static Root any2() {
  Live l;
  {
    auto v = co_await when_any(job_<Obj>(0), job_<void>(1));
    check(v);
  }
  ++continued;
}
static Root any3() {
  Live l;
  {
    auto v = co_await when_any(job_<int>(0), job_<Mo>(1), job_<int>(2));
    check(v);
  }
  ++continued;
}
static Root any6() {
  Live l;
  {
    auto v = co_await when_any(job_<int>(0), job_<Mo>(1), job_<int>(2), job_<void>(3), job_<Obj>(4), job_<int>(5));
    check(v);
  }
  ++continued;
}
static Root start(int n) { return n == 1 ? any1() : n == 2 ? any2() : n == 3 ? any3() : any6(); }
static void setup(int n, int maxsusp, bool symbolic = true) {
  for (int i = 0; i < n; ++i) {
    slot[i].susp = vs_choice("susp", maxsusp + 1);
    slot[i].fail = vs_choice("fail", 2);
    slot[i].val = symbolic ? symv() : 10 + i;
  }
}
static int cyclic = -1;          // resume in this cyclic order
static int next_waiting(int n) {
  if (cyclic >= 0) {
    for (int k = 0; k < n; ++k)
      if (slot[(cyclic + k) % n].waiting) return (cyclic + k) % n;
    return -1;
  }
  int c[N], k = 0;
  for (int i = 0; i < n; ++i)
    if (slot[i].waiting) c[k++] = i;
  if (!k) return -1;
  return c[k > 1 ? vs_choice("next", k) : 0];
}
// single thread with an exact oracle
static void seq(int n, int maxsusp) {
  if (cyclic < 0) setup(n, maxsusp);
  bool known = false;
  int fails = 0, expect = -1;
  start(n);
  // oracle for the starting phase: in order, until a success is known
  for (int i = 0; i < n; ++i) {
    VS_ASSERTM(slot[i].started == !known, "tasks are started in order, none after the outcome is known");
    if (known) continue;
    if (slot[i].susp == 0) {
      if (slot[i].fail) {
        if (++fails == n) { known = true; expect = i; }
      } else {
        known = true;
        expect = i;
      }
    }
  }
  for (;;) {
    VS_ASSERTM(continued == known, "continues exactly when the first success, or the last failure, is known");
    int i = next_waiting(n);
    if (i < 0) break;
    slot[i].waiting = false;
    bool was = slot[i].finished;
    slot[i].hand.resume();
    VS_ASSERT(!was);
    if (slot[i].finished && !known) {
      if (!slot[i].fail || ++fails == n) {
        known = true;
        expect = i;
      }
    }
  }
  VS_ASSERTM(known && continued == 1, "continues exactly once");
  VS_ASSERTM(winner == expect, "the first success, or the last failure if all fail");
  VS_ASSERTM(live == 0 && vs_heap_live() == 0, "everything is freed");
  vs_reach("end");
}
VS_ENTRY(wany_1) { seq(1, 2); }        // @reach=end
VS_ENTRY(wany_2) { seq(2, 2); }        // @reach=end
VS_ENTRY(wany_3) { seq(3, 1); }        // @reach=end
VS_ENTRY(wany_6) {                     // @reach=end
  int mask = vs_choice("suspended", 64), good = vs_choice("good", 8);
  cyclic = vs_choice("from", 6);
  for (int i = 0; i < 6; ++i) {
    slot[i].susp = mask >> i & 1;
    slot[i].fail = good == 7 ? i % 2 == 0 : i != good;
    slot[i].val = symv();
  }
  seq(6, 1);
}
VS_ENTRY(wany_3_twice) { seq(3, 2); }  // @thorough @reach=end
// the waiter (and with it the whole when_any) is destroyed while it waits
VS_ENTRY(wany_destroyed) {  // @reach=end
  int n = 1 + vs_choice("n", 3);
  setup(n, n == 3 ? 1 : 2);
  auto r = start(n);
  bool dead = continued;
  for (;;) {
    if (!dead && vs_choice("destroy", 2)) {
      r.h.destroy();
      dead = true;
    }
    int i = next_waiting(n);
    if (i < 0) break;
    slot[i].waiting = false;
    int64_t c = continued;
    slot[i].hand.resume();
    if (dead) VS_ASSERTM(continued == c, "late finishers change nothing");
    if (continued) dead = true;
  }
  if (!dead) {
    VS_ASSERT(0 && "someone must have continued the waiter");
  }
  VS_ASSERTM(live == 0 && vs_heap_live() == 0, "everything is freed exactly once");
  vs_reach("end");
}
// threads
static void resumer(int i) {
  for (int k = 1; k <= slot[i].susp; ++k) {
    vsg_await(k == 1 ? &slot[i].handed : &slot[i].handed2);
    slot[i].hand.resume();
  }
}
static void conc(int n, int maxsusp, int maxthreads = N) {
  threads = true;
  setup(n, maxsusp, false);
  int k = 0;
  for (int i = 0; i < n; ++i) k += slot[i].susp != 0;
  vs_assume(k <= maxthreads);
  {
    std::optional<std::thread> t[N];
    for (int i = 0; i < n; ++i)
      if (slot[i].susp) t[i].emplace([i] { resumer(i); });
    start(n);
    // tasks never started are never handed over: let their threads go
    for (int i = 0; i < n; ++i)
      if (t[i] && !slot[i].started) {
        slot[i].hand = std::noop_coroutine();
        vsg_signal(&slot[i].handed);
        vsg_signal(&slot[i].handed2);
      }
    for (int i = 0; i < n; ++i)
      if (t[i]) t[i]->join();
  }
  VS_ASSERTM(continued == 1, "continues exactly once");
  bool all_fail = true;
  for (int i = 0; i < n; ++i)
    if (slot[i].finished && !slot[i].fail) all_fail = false;
  VS_ASSERTM(winner_fail == all_fail, "fails only if all fail");
  if (all_fail)
    for (int i = 0; i < n; ++i) VS_ASSERTM(slot[i].finished == 1, "all tasks ran when all fail");
  VS_ASSERTM(live == 0 && vs_heap_live() == 0, "everything is freed exactly once");
  vs_reach("end");
}
VS_ENTRY(wany_conc_2) { conc(2, 1); }         // @reach=end
VS_ENTRY(wany_conc_2_twice) { conc(2, 2); }   // @thorough @reach=end @ttime=600
VS_ENTRY(wany_conc_3) { conc(3, 1, 2); }        // @reach=end @preempt=2 @tpreempt=3 @time=100 @ttime=900
VS_ENTRY(wany_conc_3_all) { conc(3, 1); }     // @thorough @reach=end @ttime=800
// nested: when_any of when_anys
static task<int> group(int a, int b) {
  auto v = co_await when_any(job_<int>(a), job_<int>(b));
  if (v.index() == 1) co_return **std::get_if<1>(&v);
  co_return **std::get_if<2>(&v);
}
static int nested_val;
static Root nested() {
  {
    auto v = co_await when_any(group(0, 1), job_<int>(2));
    nested_val = v.index() == 1 ? **std::get_if<1>(&v) : **std::get_if<2>(&v);
  }
  ++continued;
}
VS_ENTRY(wany_nested) {  // @reach=end
  for (int i = 0; i < 3; ++i) {
    slot[i].susp = vs_choice("susp", 2);
    slot[i].val = 10 + i;
  }
  nested();
  int first = -1;
  for (int i = 0; i < 3; ++i)
    if (!slot[i].susp && first < 0) first = i;
  for (;;) {
    VS_ASSERT(continued == (first >= 0));
    int i = next_waiting(3);
    if (i < 0) break;
    slot[i].waiting = false;
    if (first < 0) first = i;
    slot[i].hand.resume();
  }
  VS_ASSERT(continued == 1 && nested_val == 10 + first);
  VS_ASSERT(live == 0 && vs_heap_live() == 0);
  vs_reach("end");
}
VS_ENTRY(wany_get) {
  setup(2, 0);
  {
    auto r = when_any(job_<int>(0), job_<Obj>(1)).get();
    check(r);
  }
  VS_ASSERT(winner == (slot[0].fail ? 1 : 0));
  VS_ASSERT(live == 0);
}
