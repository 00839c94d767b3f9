// BOUND: when_all / when_any over 2 and 3 events (inputs int, void, non-trivial object); single thread: every order of up to 4 (quick) / 5 (thorough) notifications; threads: each event notified by its own thread while the waiter subscribes, every interleaving
// BOUND: the waiter is a coroutine that ends (its frame is freed) right after it was resumed; up to two waiters of the same events
// BOUND: single thread: when_all over 6 and when_any over 8 events, every order of notifications
// @must_compile
#include "seq.h"
#include <kelcoro/events.hpp>
using namespace dd;
#ifdef VS_THOROUGH
constexpr int OPS = 5;
#else
constexpr int OPS = 4;
#endif
struct Obj {
  Live l;
  int v = -5;
  Obj() = default;
  Obj(int v) : v(v) {}
  Obj(const Obj& o) = default;
  Obj(Obj&& o) noexcept : v(o.v) { o.v = -1; }
  Obj& operator=(const Obj& o) = default;
};
static event<int> ei, ej;
static event<void> ev;
static event<Obj> eo;
static ghost resumed[2], notified[4];
static int wi, wj, wo;           // values of the first notification seen while subscribed
static int which, anyval;        // first notification
static int data[4];              // written before each notification
// --- single thread
static Co all4(int i) {
  auto [a, n, o, b] = co_await when_all(ei, ev, eo, ej);
  VS_ASSERTM(a == wi && o.v == wo && b == wj, "each event's own value in its place");
  ++resumed[i];
}
static Co all2(int i) {
  auto t = co_await when_all(eo, ei);
  VS_ASSERTM(std::get<0>(t).v == wo && std::get<1>(t) == wi, "each event's own value in its place");
  ++resumed[i];
}
static Co any4(int i) {
  auto v = co_await when_any(ei, ev, eo, ej);
  VS_ASSERTM((int)v.index() == which, "told which event was first");
  switch (v.index()) {
    case 0: VS_ASSERT(std::get<0>(v) == anyval); break;
    case 2: VS_ASSERT(std::get<2>(v).v == anyval); break;
    case 3: VS_ASSERT(std::get<3>(v) == anyval); break;
  }
  ++resumed[i];
}
static bool fire(int k, int v) {
  switch (k) {
    case 0: return ei.notify_all(this_thread_executor, v);
    case 1: return ev.notify_all(this_thread_executor);
    case 2: return eo.notify_all(this_thread_executor, Obj(v));
    default: return ej.notify_all(this_thread_executor, v);
  }
}
VS_ENTRY(when_all_seq) {  // @reach=end
  int waiters = 1 + vs_choice("waiters", 2);
  bool four = vs_choice("four", 2);
  for (int i = 0; i < waiters; ++i) four ? all4(i) : all2(i);
  bool seen[4] = {};
  if (!four) seen[1] = seen[3] = true;
  for (int op = 0; op < OPS; ++op) {
    int k = vs_choice("event", 4), v = symv();
    bool first = !seen[k];
    if (first) {
      if (k == 0) wi = v;
      if (k == 2) wo = v;
      if (k == 3) wj = v;
    }
    seen[k] = true;
    bool all = seen[0] && seen[1] && seen[2] && seen[3];
    bool r = fire(k, v);
    if (four) VS_ASSERTM(r == first, "woken once per event");
    for (int i = 0; i < waiters; ++i) VS_ASSERTM(resumed[i] == all, "resumed once, after every event was notified");
  }
  for (int k = 0; k < 4; ++k)
    if (!seen[k]) {
      if (k == 0) wi = 1;
      if (k == 2) wo = 1;
      if (k == 3) wj = 1;
      fire(k, 1);
    }
  for (int i = 0; i < waiters; ++i) VS_ASSERT(resumed[i] == 1);
  VS_ASSERT(live == 0 && vs_heap_live() == 0);
  vs_reach("end");
}
VS_ENTRY(when_any_seq) {  // @reach=end
  int waiters = 1 + vs_choice("waiters", 2);
  for (int i = 0; i < waiters; ++i) any4(i);
  bool seen[4] = {};
  for (int op = 0; op < OPS; ++op) {
    int k = vs_choice("event", 4), v = symv();
    if (op == 0) {
      which = k;
      anyval = v;
    }
    bool r = fire(k, v);
    VS_ASSERT(r == !seen[k]);
    seen[k] = true;
    for (int i = 0; i < waiters; ++i) VS_ASSERTM(resumed[i] == 1, "resumed exactly once, by the first notification");
  }
  for (int k = 0; k < 4; ++k) fire(k, 3);
  for (int i = 0; i < waiters; ++i) VS_ASSERT(resumed[i] == 1);
  VS_ASSERT(live == 0 && vs_heap_live() == 0);
  vs_reach("end");
}
// --- threads
static void fire_t(int k) {
  data[k] = 40 + k;
  ++notified[k];
  fire(k, 40 + k);
}
static Co all_c2(int i) {
  auto t = co_await when_all(ei, eo);
  VS_ASSERTM(notified[0] && notified[2], "after every event was notified");
  VS_ASSERTM(std::get<0>(t) == 40 && std::get<1>(t).v == 42, "each event's own value in its place");
  if (notified[0] == 1 && notified[2] == 1) VS_ASSERTM(data[0] == 40 && data[2] == 42, "what was done before the notifications is visible");
  ++resumed[i];
}
static Co all_c3(int i) {
  auto t = co_await when_all(ei, ev, ej);
  VS_ASSERTM(notified[0] && notified[1] && notified[3], "after every event was notified");
  VS_ASSERTM(std::get<0>(t) == 40 && std::get<2>(t) == 43, "each event's own value in its place");
  VS_ASSERT(data[0] == 40 && data[1] == 41 && data[3] == 43);
  ++resumed[i];
}
static Co any_c2(int i) {
  auto t = co_await when_any(ei, eo);
  if (t.index() == 0) VS_ASSERT(notified[0] && std::get<0>(t) == 40);
  else VS_ASSERT(notified[2] && std::get<1>(t).v == 42);
  ++resumed[i];
}
static Co any_c3(int i) {
  auto t = co_await when_any(ei, ev, ej);
  if (t.index() == 0) VS_ASSERT(notified[0] && std::get<0>(t) == 40 && data[0] == 40);
  else if (t.index() == 1) VS_ASSERT(notified[1] && data[1] == 41);
  else VS_ASSERT(notified[3] && std::get<2>(t) == 43 && data[3] == 43);
  ++resumed[i];
}
// waiter subscribes while two threads notify; those who came too late are notified again
static void two(Co (*w)(int), bool all) {
  {
    bool before = vs_choice("subscribed", 2);
    if (before) w(0);
    std::thread t([] { fire_t(0); });
    std::thread u([] { fire_t(2); });
    if (!before) w(0);
    t.join();
    u.join();
    if (before) VS_ASSERTM(resumed[0] == 1, "resumed exactly once");
    VS_ASSERT(resumed[0] <= 1);
    fire(0, 40);
    fire(2, 42);
    VS_ASSERTM(resumed[0] == 1, "resumed exactly once");
    VS_ASSERTM(!fire(0, 1) && !fire(2, 1), "nothing stays subscribed");
  }
  VS_ASSERT(live == 0 && vs_heap_live() == 0);
  vs_reach("end");
}
VS_ENTRY(when_all_two) { two(all_c2, true); }    // @reach=end
VS_ENTRY(when_any_two) { two(any_c2, false); }   // @reach=end
static void three(Co (*w)(int)) {
  w(0);
  {
    std::thread t([] { fire_t(0); });
    std::thread u([] { fire_t(1); });
    fire_t(3);
    t.join();
    u.join();
  }
  VS_ASSERTM(resumed[0] == 1, "resumed exactly once");
  VS_ASSERT(live == 0 && vs_heap_live() == 0);
  vs_reach("end");
}
VS_ENTRY(when_all_three) { three(all_c3); }   // @reach=end
VS_ENTRY(when_any_three) { three(any_c3); }   // @reach=end
static void three_sub(Co (*w)(int)) {
  {
    std::thread t([] { fire_t(0); });
    std::thread u([] { fire_t(1); fire_t(3); });
    w(0);
    t.join();
    u.join();
  }
  for (int k : {0, 1, 3}) fire(k, 40 + k);
  VS_ASSERTM(resumed[0] == 1, "resumed exactly once");
  VS_ASSERT(live == 0 && vs_heap_live() == 0);
  vs_reach("end");
}
VS_ENTRY(when_all_subscribing) { three_sub(all_c3); }   // @reach=end
VS_ENTRY(when_any_subscribing) { three_sub(any_c3); }   // @reach=end
VS_ENTRY(when_any_two_waiters) {  // @reach=end
  any_c2(0);
  {
    std::thread t([] { fire_t(0); });
    std::thread u([] { fire_t(2); });
    any_c2(1);
    t.join();
    u.join();
  }
  fire(0, 40);
  fire(2, 42);
  VS_ASSERTM(resumed[0] == 1 && resumed[1] == 1, "resumed exactly once");
  VS_ASSERT(live == 0 && vs_heap_live() == 0);
  vs_reach("end");
}

// more events at once
static event<int> em[8];
static int vm[8], got_all;
static Co all6() {
  auto t = co_await when_all(em[0], em[1], em[2], em[3], em[4], em[5]);
  auto [a, b, c, d, e, f] = t;
  VS_ASSERTM(a == vm[0] && b == vm[1] && c == vm[2] && d == vm[3] && e == vm[4] && f == vm[5], "each event's own value in its place");
  ++got_all;
}
VS_ENTRY(when_all_six) {  // @reach=end
  all6();
  bool done[6] = {};
  for (int k = 6; k; --k) {
    VS_ASSERTM(got_all == 0, "resumed after every event was notified");
    int c = vs_choice("which", k), i = 0;
    while (done[i] || c--) ++i;
    done[i] = true;
    vm[i] = symv();
    VS_ASSERT(em[i].notify_all(this_thread_executor, vm[i]));
    VS_ASSERT(!em[i].notify_all(this_thread_executor, 0));
  }
  VS_ASSERTM(got_all == 1 && vs_heap_live() == 0, "resumed once, after every event was notified");
  vs_reach("end");
}
static Co any8() {
  auto v = co_await when_any(em[0], em[1], em[2], em[3], em[4], em[5], em[6], em[7]);
  VS_ASSERTM((int)v.index() == which, "told which event was first");
  std::visit([](int x) { VS_ASSERT(x == anyval); }, v);
  ++got_all;
}
VS_ENTRY(when_any_eight) {  // @reach=end
  any8();
  which = vs_choice("first", 8);
  anyval = symv();
  VS_ASSERT(em[which].notify_all(this_thread_executor, anyval));
  VS_ASSERTM(got_all == 1, "resumed by the first notification");
  int shift = vs_choice("then", 8);
  for (int i = 0; i < 8; ++i) {
    int k = (i + shift) % 8;
    VS_ASSERT(em[k].notify_all(this_thread_executor, 3) == (k != which));
  }
  VS_ASSERTM(got_all == 1 && vs_heap_live() == 0, "and by no other");
  vs_reach("end");
}
