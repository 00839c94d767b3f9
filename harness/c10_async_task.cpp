// BOUND: one consumer thread and one thread per suspension of the body (1-2) that resumes it; consumer does up to 3 (quick) / 4 (thorough) operations of {ready, wait, get, move construct, move assign (swap), swap, detach, destroy}, every interleaving; bodies that end at once, suspend once or twice
// BOUND: results int, void, reference, non-trivial object; exception or value; plain and resource (task_r) forms; two tasks finishing on two threads
// @must_compile
#include "seq.h"
#include <kelcoro/async_task.hpp>
using namespace dd;
#ifdef VS_THOROUGH
constexpr int OPS = 4;
#else
constexpr int OPS = 3;
#endif
struct Slot {
  int handed, handed2;
  std::coroutine_handle<> hand;
  int data;         // plain memory written by the body
  ghost finishing;  // the body reached its end
  ghost result_live;
  void* frame_obj;
};
static Slot slot[2];
struct Obj {
  Live l;
  int v;
  explicit Obj(int v) : v(v) {}
  Obj(Obj&& o) noexcept : v(o.v) { o.v = -1; }
};
struct Hand {
  Slot& s;
  int* sig;
  static bool await_ready() noexcept { return false; }
  void await_suspend(std::coroutine_handle<> h) noexcept {
    s.hand = h;
    vsg_signal(sig);
  }
  static void await_resume() noexcept {}
};
static int target = 40;
template <class R> static async_task<R> body(Slot& s, int susp, int fail, int val) {
  Live l;
  if (susp >= 1) co_await Hand{s, &s.handed};
  s.data = 6;
  if (susp >= 2) co_await Hand{s, &s.handed2};
  s.data = 7;
  ++s.finishing;
  if (fail) throw Boom{val};
  if constexpr (std::is_reference_v<R>) co_return target;
  else if constexpr (!std::is_void_v<R>) co_return R(val);
}
static void finisher(Slot& s, int n) {
  vsg_await(n == 1 ? &s.handed : &s.handed2);
  s.hand.resume();
}
template <class R> static void check_done(Slot& s) {
  VS_ASSERTM(s.finishing == 1, "returns only after the body finished");
  VS_ASSERTM(s.data == 7, "every write of the body is visible");
}
template <class R> static void check_get(async_task<R>& t, Slot& s, int fail, int val, bool first = true) {
  try {
    if constexpr (std::is_void_v<R>) t.get();
    else if constexpr (std::is_reference_v<R>) VS_ASSERT(&t.get() == &target);
    else if constexpr (std::is_same_v<R, Obj>) {
      Obj&& o = t.get();
      VS_ASSERTM(o.v == val, "get() gives the returned value");
    } else VS_ASSERTM(t.get() == val, "get() gives the returned value");
    VS_ASSERTM(!fail, "get() rethrows the body's exception");
  } catch (Boom& b) {
    VS_ASSERTM(fail && b.tag == val, "get() rethrows the body's exception");
  }
  check_done<R>(s);
}
template <class R> static void consumer(int susp, int fail, int val) {
  Slot& s = slot[0];
  bool seen_ready = false, got_ = false;
  {
    std::optional<async_task<R>> a;
    a.emplace(body<R>(s, susp, fail, val));
    VS_ASSERT(!a->empty());
    for (int i = 0; i < OPS && a; ++i) {
      switch (vs_choice("op", 8)) {
        case 0: {
          bool r = a->ready();
          if (a->empty()) VS_ASSERT(!r);
          else {
            VS_ASSERTM(!seen_ready || r, "ready() stays true");
            if (susp == 0) VS_ASSERTM(r, "a body that ended at once is ready");
            if (r) {
              check_done<R>(s);
              seen_ready = true;
            }
          }
          break;
        }
        case 1:
          a->wait();
          if (!a->empty()) {
            check_done<R>(s);
            seen_ready = true;
            VS_ASSERTM(a->ready(), "ready after wait()");
          }
          break;
        case 2:
          if (!a->empty()) {
            check_get(*a, s, fail, val);
            seen_ready = true;
            VS_ASSERT(a->ready() && !a->empty());
          }
          break;
        case 3: {
          async_task<R> b(std::move(*a));
          VS_ASSERTM(a->empty(), "moved from");
          a.emplace(std::move(b));
          break;
        }
        case 4: {
          async_task<R> b;
          b = std::move(*a);
          VS_ASSERT(a->empty());
          swap(b, *a);
          VS_ASSERT(b.empty());
          break;
        }
        case 5:
          a->detach();
          VS_ASSERTM(a->empty() && !*a, "detach() leaves an empty task");
          vs_reach("detached");
          break;
        case 6: a.reset(); break;
        case 7: i = OPS; break;
      }
    }
  }
}
template <class R> static void run(int susp) {
  int fail = vs_choice("fail", 2), val = (int)vs_sym("val", 32);
  if (susp) {
    std::thread t([] { finisher(slot[0], 1); });
    std::optional<std::thread> u;
    if (susp == 2) u.emplace([] { finisher(slot[0], 2); });
    consumer<R>(susp, fail, val);
    t.join();
    if (u) u->join();
  } else
    consumer<R>(0, fail, val);
  VS_ASSERTM(live == 0 && vs_heap_live() == 0, "frame and result are freed, by whichever side is last");
  VS_ASSERT(slot[0].finishing == 1);
  vs_reach("end");
}
VS_ENTRY(at_int) { run<int>(1); }          // @reach=end,detached
VS_ENTRY(at_void) { run<void>(1); }        // @reach=end,detached
VS_ENTRY(at_ref) { run<int&>(1); }         // @reach=end,detached
VS_ENTRY(at_obj) { run<Obj>(1); }          // @reach=end,detached
VS_ENTRY(at_twice) { run<int>(2); }        // @reach=end,detached
VS_ENTRY(at_now_int) { run<int>(0); }      // @reach=end,detached
VS_ENTRY(at_now_obj) { run<Obj>(0); }      // @reach=end,detached
// with a memory resource
struct counting {
  static inline ghost out;
  void* allocate(size_t n) {
    ++out;
    return ::operator new(n);
  }
  void deallocate(void* p, size_t n) noexcept {
    --out;
    ::operator delete(p);
  }
};
static async_task_r<Obj, counting> rbody(Slot& s, int fail) {
  Live l;
  co_await Hand{s, &s.handed};
  s.data = 7;
  ++s.finishing;
  if (fail) throw Boom{3};
  co_return Obj(3);
}
VS_ENTRY(at_resource) {  // @reach=end
  int fail = vs_choice("fail", 2);
  std::thread t([] { finisher(slot[0], 1); });
  {
    async_task<Obj> a = rbody(slot[0], fail);
    VS_ASSERT(counting::out == 1);
    switch (vs_choice("op", 3)) {
      case 0: check_get(a, slot[0], fail, 3); break;
      case 1: a.detach(); break;
      case 2: break;
    }
  }
  t.join();
  VS_ASSERT(counting::out == 0 && live == 0);
  vs_reach("end");
}
// two tasks finishing on two threads, exchanged between variables
VS_ENTRY(at_two) {  // @reach=end
  std::thread t([] { finisher(slot[0], 1); });
  std::thread u([] { finisher(slot[1], 1); });
  {
    async_task<int> a = body<int>(slot[0], 1, 0, 1);
    async_task<int> b = body<int>(slot[1], 1, 1, 2);
    if (vs_choice("swap", 2)) {
      a.swap(b);
      check_get(b, slot[0], 0, 1);
      if (vs_choice("wait", 2)) a.wait();
    } else {
      a = std::move(b);
      check_get(a, slot[1], 1, 2);
    }
  }
  t.join();
  u.join();
  VS_ASSERT(live == 0 && slot[0].finishing == 1 && slot[1].finishing == 1);
  vs_reach("end");
}
VS_ENTRY(at_empty) {
  async_task<int> a;
  VS_ASSERT(a.empty() && !a && !a.ready());
  a.wait();
  a.detach();
  async_task<int> b(std::move(a));
  VS_ASSERT(b.empty());
}
