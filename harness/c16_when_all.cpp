// BOUND: fixed lists of 1-3 tasks and vectors of 0-3 tasks; each task, freely chosen: value at once, throw at once, suspend (once or twice) and then value or throw; values symbolic
// BOUND: single thread: suspended tasks resumed in every order; threads: up to 3 tasks resumed by their own threads, starting while when_all is still starting the others, every interleaving
// BOUND: result types int, void, non-trivial object, move-only object; the awaiting coroutine ends right after when_all
// BOUND: single thread: 4-8 tasks, any of them suspended, all / none / every other one failing, resumed forwards or backwards
// BOUND: a vector of 300 tasks of which 1, 7, 150 or 300 finish later, one fails
// @must_compile
#include "seq.h"
#include <kelcoro/algorithm.hpp>
using namespace dd;
struct Obj {
  Live l;
  int v = 0;
  Obj() = default;
  explicit Obj(int v) : v(v) {}
  Obj(const Obj&) = default;
  Obj(Obj&& o) noexcept : v(o.v) { o.v = -1; }
  Obj& operator=(const Obj&) = default;
  Obj& operator=(Obj&& o) noexcept {
    v = o.v;
    o.v = -1;
    return *this;
  }
};
struct Mo {                  // can only be moved
  Live l;
  int v = 0;
  Mo() = default;
  explicit Mo(int v) : v(v) {}
  Mo(Mo&& o) noexcept : v(o.v) { o.v = -1; }
  Mo& operator=(Mo&& o) noexcept {
    v = std::exchange(o.v, -1);
    return *this;
  }
};
constexpr int N = 8;
struct Slot {
  std::coroutine_handle<> hand;
  bool waiting;
  int handed, handed2;
  int data;
  int val;
  ghost started, finished;
  int fail, susp;
};
static Slot slot[N];
static bool threads;
struct Wait {
  Slot& s;
  int* sig;
  static bool await_ready() noexcept { return false; }
  void await_suspend(std::coroutine_handle<> h) noexcept {
    s.hand = h;
    s.waiting = true;
    if (threads) vsg_signal(sig);
  }
  static void await_resume() noexcept {}
};
template <class R> static task<R> job_(int i) {
  Slot& s = slot[i];
  Live l;
  ++s.started;
  if (s.susp >= 1) co_await Wait{s, &s.handed};
  s.data = 1;
  if (s.susp >= 2) co_await Wait{s, &s.handed2};
  s.data = 2;
  ++s.finished;
  if (s.fail) throw Boom{s.val};
  if constexpr (!std::is_void_v<R>) co_return R(s.val);
}
static ghost continued;
template <class E> static void check(int i, E& e) {
  Slot& s = slot[i];
  VS_ASSERTM(s.started == 1 && s.finished == 1 && s.data == 2, "continues only after every task finished");
  VS_ASSERTM(e.has_value() == !s.fail && (bool)e == !s.fail, "each outcome is in its own place");
  if (s.fail) {
    try {
      std::rethrow_exception(e.error());
    } catch (Boom& b) {
      VS_ASSERTM(b.tag == s.val, "the task's own exception");
    }
  } else {
    if constexpr (requires { (*e).v; }) VS_ASSERTM((*e).v == s.val, "the task's own value");
    else if constexpr (requires { *e + 1; }) VS_ASSERTM(*e == s.val, "the task's own value");
  }
}
static void setup(int n, int maxsusp, bool symbolic = true) {
  for (int i = 0; i < n; ++i) {
    slot[i].susp = vs_choice("susp", maxsusp + 1);
    slot[i].fail = vs_choice("fail", 2);
    slot[i].val = symbolic ? symv() : 10 + i;
  }
}
// awaits when_all in several forms
static Co fixed1() {
  {
    auto [a] = co_await when_all(job_<int>(0));
    check(0, a);
  }
  ++continued;
}
static Co fixed2() {
  {
    auto [a, b] = co_await when_all(job_<Obj>(0), job_<void>(1));
    check(0, a);
    check(1, b);
  }
  ++continued;
}
static Co fixed3() {
  {
    auto [a, b, c] = co_await when_all(job_<int>(0), job_<Mo>(1), job_<int>(2));
    check(0, a);
    check(1, b);
    check(2, c);
  }
  ++continued;
}
template <class R> static Co vec(int n) {
  {
    std::vector<task<R>> v;
    for (int i = 0; i < n; ++i) v.push_back(job_<R>(i));
    auto r = co_await when_all(std::move(v));
    VS_ASSERT((int)r.size() == n);
    for (int i = 0; i < n; ++i) check(i, r[i]);
  }
  ++continued;
}
static void start(int form, int n) {
  switch (form) {
    case 0: n == 1 ? fixed1() : n == 2 ? fixed2() : fixed3(); break;
    case 1: vec<int>(n); break;
    case 2: vec<Obj>(n); break;
    case 3: vec<void>(n); break;
    case 4: vec<Mo>(n); break;
  }
}
static void final_checks(int n) {
  VS_ASSERTM(continued == 1, "the waiter continues exactly once");
  for (int i = 0; i < n; ++i) VS_ASSERT(slot[i].started == 1 && slot[i].finished == 1);
  VS_ASSERTM(live == 0 && vs_heap_live() == 0, "everything is freed");
  vs_reach("end");
}
static void seq(int form, int n, int maxsusp) {
  setup(n, maxsusp);
  start(form, n);
  for (int i = 0; i < n; ++i) VS_ASSERTM(slot[i].started == 1, "every task is started");
  for (;;) {
    int c[N], k = 0;
    for (int i = 0; i < n; ++i)
      if (slot[i].waiting) c[k++] = i;
    VS_ASSERTM(continued == (k == 0), "continues exactly after the last task");
    if (!k) break;
    int i = c[k > 1 ? vs_choice("next", k) : 0];
    slot[i].waiting = false;
    slot[i].hand.resume();
  }
  final_checks(n);
}
VS_ENTRY(wall_fixed1) { seq(0, 1, 2); }                      // @reach=end
VS_ENTRY(wall_fixed2) { seq(0, 2, 2); }                      // @reach=end
VS_ENTRY(wall_fixed3) { seq(0, 3, 1); }                      // @reach=end
VS_ENTRY(wall_vec2) { seq(1 + vs_choice("type", 4), 2, 2); } // @reach=end
VS_ENTRY(wall_vec3) { seq(1 + vs_choice("type", 4), 3, 1); } // @reach=end
VS_ENTRY(wall_vec3_twice) { seq(2, 3, 2); }                  // @thorough @reach=end
VS_ENTRY(wall_empty) {  // @reach=end
  start(1 + vs_choice("type", 4), 0);
  final_checks(0);
}
// threads: resumer of task i waits until the task is suspended, then resumes it
static void resumer(int i) {
  for (int k = 1; k <= slot[i].susp; ++k) {
    vsg_await(k == 1 ? &slot[i].handed : &slot[i].handed2);
    slot[i].hand.resume();
  }
}
static void conc(int form, int n, int maxsusp) {
  threads = true;
  setup(n, maxsusp, false);
  {
    std::optional<std::thread> t[N];
    for (int i = 0; i < n; ++i)
      if (slot[i].susp) t[i].emplace([i] { resumer(i); });
    start(form, n);
    for (int i = 0; i < n; ++i)
      if (t[i]) t[i]->join();
  }
  final_checks(n);
}
VS_ENTRY(wall_conc_fixed2) { conc(0, 2, 2); }   // @reach=end
VS_ENTRY(wall_conc_vec2) { conc(2, 2, 2); }     // @reach=end
VS_ENTRY(wall_conc_vec3) { conc(1, 3, 1); }     // @reach=end
VS_ENTRY(wall_conc_fixed3) { conc(0, 3, 1); }   // @reach=end
VS_ENTRY(wall_conc_void) { conc(3, 3, 1); }     // @thorough @reach=end
// nested: when_all of when_alls
static task<int> group(int a, int b) {
  auto [x, y] = co_await when_all(job_<int>(a), job_<int>(b));
  check(a, x);
  check(b, y);
  co_return 7;
}
static Co nested() {
  {
    auto [g, c] = co_await when_all(group(0, 1), job_<int>(2));
    VS_ASSERT(*g == 7);
    check(2, c);
  }
  ++continued;
}
VS_ENTRY(wall_nested) {  // @reach=end
  setup(3, 1);
  nested();
  for (int r = 0; r < 3; ++r)
    for (int k = 0; k < 3; ++k) {
      int i = (k + r) % 3;
      if (slot[i].waiting && vs_choice("now", 2)) {
        slot[i].waiting = false;
        slot[i].hand.resume();
      }
    }
  for (int i = 0; i < 3; ++i)
    if (slot[i].waiting) {
      slot[i].waiting = false;
      slot[i].hand.resume();
    }
  final_checks(3);
}
// from ordinary code
VS_ENTRY(wall_get) {
  setup(2, 0);
  {
    auto r = when_all(job_<int>(0), job_<Obj>(1)).get();
    check(0, std::get<0>(r));
    check(1, std::get<1>(r));
  }
  continued = 1;
  final_checks(2);
}

// more tasks
static Co fixed6() {
  {
    auto [a, b, c, d, e, f] = co_await when_all(job_<int>(0), job_<Mo>(1), job_<int>(2), job_<void>(3), job_<Obj>(4), job_<int>(5));
    check(0, a);
    check(1, b);
    check(2, c);
    check(3, d);
    check(4, e);
    check(5, f);
  }
  ++continued;
}
static void many(int n, auto&& begin) {
  int mask = vs_choice("suspended", 1 << (n > 6 ? 6 : n)), fails = vs_choice("fails", 4);
  for (int i = 0; i < n; ++i) {
    slot[i].susp = mask >> (i % 6) & 1;
    slot[i].fail = fails == 3 ? 1 : fails == 0 ? 0 : i % 2 == fails - 1;
    slot[i].val = symv();
  }
  begin(n);
  bool back = vs_choice("backwards", 2);
  for (int k = 0; k < n; ++k) {
    int i = back ? n - 1 - k : k, left = 0;
    if (!slot[i].waiting) continue;
    VS_ASSERTM(continued == 0, "continues exactly after the last task");
    slot[i].waiting = false;
    slot[i].hand.resume();
  }
  final_checks(n);
}
VS_ENTRY(wall_many_fixed) { many(6, [](int) { fixed6(); }); }                       // @reach=end
VS_ENTRY(wall_many_vec) { many(4 + vs_choice("n", 5), [](int n) { vec<Obj>(n); }); }  // @reach=end
VS_ENTRY(wall_many_void) { many(8, [](int n) { vec<void>(n); }); }                  // @reach=end
// a vector of 300 tasks, some of which finish later
static std::coroutine_handle<> later300[300];
static int finished300;
struct Later300 {
  int i;
  static bool await_ready() noexcept { return false; }
  void await_suspend(std::coroutine_handle<> h) noexcept { later300[i] = h; }
  static void await_resume() noexcept {}
};
static task<int> one300(int i, bool later, int base) {
  if (later) co_await Later300{i};
  ++finished300;
  if (i == 17) throw 5;
  co_return base + i;
}
static Co all300(int step, int phase, int base) {
  std::vector<task<int>> v;
  for (int i = 0; i < 300; ++i) v.push_back(one300(i, i % step == phase, base));
  auto r = co_await when_all(std::move(v));
  VS_ASSERTM(finished300 == 300, "continues only after every task");
  VS_ASSERT(r.size() == 300);
  for (int i = 0; i < 300; ++i) {
    VS_ASSERTM(r[i].has_value() == (i != 17), "each outcome in its place");
    if (i != 17) VS_ASSERTM(*r[i] == base + i, "each outcome in its place");
  }
  ++continued;
}
VS_ENTRY(wall_300) {  // @reach=end
  const int steps[] = {1, 2, 43, 300}, phases[] = {0, 1, 41, 299};
  int k = vs_choice("later", 4);
  all300(steps[k], phases[k], (int)(int16_t)vs_sym("base", 16));
  for (int i = 0; i < 300; ++i)
    if (later300[i]) {
      VS_ASSERTM(continued == 0, "continues exactly after the last task");
      later300[i].resume();
    }
  VS_ASSERTM(continued == 1 && live == 0, "continues once");
  vs_reach("end");
}
