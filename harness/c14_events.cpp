// BOUND: single-thread histories of up to 4 (quick) / 5 (thorough) operations of {subscribe coroutine once / repeatedly, set callback, notify now, notify through a deferring executor}, symbolic values
// BOUND: inputs whose copy throws: 0-3 receivers and a failure at any copy; with a second notifier and subscriber, every interleaving
// BOUND: 2-3 threads subscribing (1-2 times each) and notifying (1-2 times each), every interleaving; event inputs void, int, non-trivial object
// BOUND: up to 10 subscribers (coroutines that await again and again, callbacks) of one event
// @must_compile
#include "seq.h"
#include <kelcoro/events.hpp>
#include <kelcoro/task.hpp>
using namespace dd;
#ifdef VS_THOROUGH
constexpr int OPS = 5;
#else
constexpr int OPS = 4;
#endif
struct Obj {               // non trivial input
  Live l;
  int v = -5;
  Obj() = default;
  Obj(int v) : v(v) {}
  Obj(const Obj& o) = default;
  Obj(Obj&& o) noexcept : v(o.v) { o.v = -1; }
  Obj& operator=(const Obj& o) = default;
  Obj& operator=(Obj&& o) noexcept {
    if (this != &o) {
      v = o.v;
      o.v = -1;
    }
    return *this;
  }
};
struct Sub {
  int woken;               // how many times resumed
  int expect;              // how many times it should have been by now
  int value;               // expected next value
  bool subscribed;
};
static Sub sub[12];
static int nsub;
static bool in_exe;
template <class T> static int val(const T& t) {
  if constexpr (std::is_same_v<T, Obj>) return t.v;
  else return t;
}
static void woke(int i, int v) {
  VS_ASSERTM(sub[i].subscribed && sub[i].expect == sub[i].woken + 1, "resumed once per notification it was subscribed before");
  VS_ASSERTM(sub[i].value == v, "with the value passed");
  VS_ASSERTM(in_exe, "through the executor");
  sub[i].woken++;
  sub[i].subscribed = false;
}
template <class T> static Co subscriber(event<T>& e, int i, int times) {
  Live l;
  for (int k = 0; k < times; ++k) {
    sub[i].subscribed = true;
    if constexpr (std::is_void_v<T>) {
      co_await e;
      woke(i, 0);
    } else {
      T x = co_await e;
      woke(i, val(x));
      x = T(77);           // own copy: nobody else sees this
    }
  }
}
struct Exe {
  void attach(task_node* n) {
    in_exe = true;
    n->task.resume();
    in_exe = true;         // nested resumptions also came through it
  }
};
struct LateExe {
  std::vector<task_node*> v;
  void attach(task_node* n) { v.push_back(n); }
};
template <class T> static void history() {
  {
    event<T> e;
    for (int op = 0; op < OPS; ++op) {
      int k = vs_choice("op", 5);
      if (k == 0 && op) break;
      if (k <= 1) subscriber(e, nsub++, 1);
      else if (k == 2) subscriber(e, nsub++, 2);
      else if (k == 3) {
        int i = nsub++;
        sub[i].subscribed = true;
        Live cap;
        if constexpr (std::is_void_v<T>) e.set_callback([i, cap] { woke(i, 0); });
        else e.set_callback([i, cap](T x) { woke(i, val(x)); });
      } else {
        int v = std::is_void_v<T> ? 0 : symv();
        bool any = false;
        for (int i = 0; i < nsub; ++i)
          if (sub[i].subscribed) {
            any = true;
            sub[i].expect++;
            sub[i].value = v;
          }
        in_exe = false;
        bool r;
        if (vs_choice("late", 2)) {
          LateExe late;
          if constexpr (std::is_void_v<T>) r = e.notify_all(late);
          else r = e.notify_all(late, T(v));
          for (int i = 0; i < nsub; ++i)
            if (sub[i].subscribed && sub[i].expect > sub[i].woken) VS_ASSERT(sub[i].woken == sub[i].expect - 1);
          for (size_t i = 0; i < late.v.size(); ++i) {
            in_exe = true;
            late.v[i]->task.resume();
          }
        } else {
          Exe exe;
          if constexpr (std::is_void_v<T>) r = e.notify_all(exe);
          else r = e.notify_all(exe, T(v));
        }
        VS_ASSERTM(r == any, "returns whether it woke anyone");
        for (int i = 0; i < nsub; ++i) VS_ASSERTM(sub[i].woken == sub[i].expect, "everyone subscribed before was woken, nobody else");
      }
    }
    // drain
    for (int r = 0; r < 3; ++r) {
      for (int i = 0; i < nsub; ++i)
        if (sub[i].subscribed) {
          sub[i].expect++;
          sub[i].value = 0;
        }
      if constexpr (std::is_void_v<T>) e.notify_all(Exe{});
      else e.notify_all(Exe{}, T(0));
    }
    for (int i = 0; i < nsub; ++i) VS_ASSERT(!sub[i].subscribed && sub[i].woken == sub[i].expect);
  }
  VS_ASSERTM(live == 0, "frames, callbacks and values are destroyed");
  vs_reach("end");
}
VS_ENTRY(ev_void) { history<void>(); }   // @reach=end
VS_ENTRY(ev_int) { history<int>(); }     // @reach=end
VS_ENTRY(ev_obj) { history<Obj>(); }     // @reach=end
VS_ENTRY(ev_global) {
  subscriber(event_v<int>, nsub++, 1);
  sub[0].expect = 1;
  sub[0].value = 9;
  VS_ASSERT(event_v<int>.notify_all(Exe{}, 9) && sub[0].woken == 1);
  struct tag {};
  VS_ASSERT(!(event_v<int, tag>.notify_all(Exe{}, 1)));
}
// the copy of the value fails for one of the subscribers: nobody is resumed, everybody keeps waiting
struct Frag {
  Live l;
  int v = 0;
  static inline int copies, fail_at;
  Frag() = default;
  Frag(int v) : v(v) {}
  Frag(const Frag& o) : v(o.v) { copied(); }
  Frag(Frag&& o) noexcept : v(o.v) { o.v = -1; }
  Frag& operator=(const Frag& o) {
    copied();
    v = o.v;
    return *this;
  }
  Frag& operator=(Frag&& o) noexcept {
    v = o.v;
    return *this;
  }
  static void copied() {
    if (copies++ == fail_at) throw Boom{7};
  }
};
static ghost fwoken[5];
static Co fsub(event<Frag>& e, int i, int want) {
  Live l;
  Frag f = co_await e;
  VS_ASSERTM(++fwoken[i] == 1 && f.v == want, "woken once, with the value of the notification that succeeded");
}
VS_ENTRY(ev_copy_throws) {  // @reach=end,threw,quiet
  {
    int n = vs_choice("n", 4), v = symv();
    event<Frag> e;
    for (int i = 0; i < n; ++i) {
      if (i == 1 && vs_choice("cb", 2)) e.set_callback([v](Frag f) { VS_ASSERT(++fwoken[1] == 1 && f.v == v); });
      else fsub(e, i, v);
    }
    const Frag bad(v + 1), good(v);
    bool threw = false;
    Frag::copies = 0;
    Frag::fail_at = vs_choice("at", 5);      // 0: the argument itself
    bool late = vs_choice("late", 2);
    LateExe le;
    try {
      if (late) e.notify_all(le, Frag(v));
      else e.notify_all(this_thread_executor, good);
    } catch (Boom& b) {
      threw = true;
      VS_ASSERT(b.tag == 7);
    }
    VS_ASSERT(le.v.size() == (late && !threw ? n : 0));
    for (auto* t : le.v) t->task.resume();
    Frag::fail_at = -1;
    if (threw) {
      for (int i = 0; i < n; ++i) VS_ASSERTM(fwoken[i] == 0, "nobody is resumed when copying fails");
      if (vs_choice("more", 2)) fsub(e, n++, v);
      VS_ASSERTM(e.notify_all(this_thread_executor, good) == (n > 0), "they are all still waiting");
    }
    for (int i = 0; i < n; ++i) VS_ASSERTM(fwoken[i] == 1, "everyone is woken once");
    VS_ASSERT(!e.notify_all(this_thread_executor, good));
    vs_reach(threw ? "threw" : "quiet");
  }
  VS_ASSERT(live == 0);
  vs_reach("end");
}
// the same while others subscribe and notify
static ghost tried, thrown;
struct Frag2 {               // the second copy of 13 fails
  int v = 0;
  Frag2() = default;
  Frag2(int v) : v(v) {}
  Frag2(const Frag2& o) : v(o.v) { copied(); }
  Frag2(Frag2&& o) noexcept = default;
  Frag2& operator=(const Frag2& o) {
    v = o.v;
    copied();
    return *this;
  }
  void copied() {
    if (v == 13 && tried++ == 1) throw Boom{7};
  }
};
static Co fcsub(event<Frag2>& e, int i) {
  Live l;
  Frag2 f = co_await e;
  VS_ASSERTM(f.v == 5 || f.v == 13, "a notified value");
  VS_ASSERTM(++fwoken[i] == 1, "woken once");
}
VS_ENTRY(ev_copy_throws_conc) {  // @reach=end,threw,quiet
  {
    event<Frag2> e;
    fcsub(e, 0);
    if (vs_choice("two", 2)) fcsub(e, 1);
    else fwoken[1] = 1;
    {
      std::thread t([&e] { fcsub(e, 2); });
      std::thread u([&e] {
        try {
          e.notify_all(this_thread_executor, 13);
        } catch (Boom&) {
          ++thrown;
        }
      });
      e.notify_all(this_thread_executor, 5);
      t.join();
      u.join();
    }
    e.notify_all(this_thread_executor, 5);
    for (int i = 0; i < 3; ++i) VS_ASSERTM(fwoken[i] == 1, "no subscription is lost or duplicated");
    VS_ASSERT(!e.notify_all(this_thread_executor, 5));
    vs_reach(thrown ? "threw" : "quiet");
  }
  VS_ASSERT(live == 0);
  vs_reach("end");
}
// concurrency
static ghost wakes[4], notified, values_ok;
static int marks[4];             // plain data written before subscribing, read by the notifier's resumption
template <class T> static Co csub(event<T>& e, int i, int times) {
  for (int k = 0; k < times; ++k) {
    marks[i] = k + 1;
    int64_t before = notified;
    if constexpr (std::is_void_v<T>) co_await e;
    else {
      T x = co_await e;
      VS_ASSERTM(val(x) >= 100 && val(x) < 103, "a notified value");
      x = T(5);
    }
    VS_ASSERTM(marks[i] == k + 1, "what the subscriber wrote is visible after the wake up");
    VS_ASSERTM(notified > before || notified > 0, "woken by a notification");
    ++wakes[i];
  }
}
template <class T> static bool notify(event<T>& e, int v) {
  ++notified;
  if constexpr (std::is_void_v<T>) return e.notify_all(this_thread_executor);
  else return e.notify_all(this_thread_executor, T(100 + v));
}
template <class T> static void concurrent(int subs, int nots, int times) {
  {
    event<T> e;
    ghost trues;
    if (vs_choice("pre", 2)) csub(e, 3, 1);
    else wakes[3] = 1;
    int64_t pre = 1 - wakes[3];
    {
      std::optional<std::thread> a, b;
      std::thread t([&] { csub(e, 0, times); });
      if (subs > 1) a.emplace([&] { csub(e, 1, 1); });
      if (nots > 1) b.emplace([&] { trues += notify(e, 1); });
      bool r = notify(e, 0);
      if (pre && nots == 1) VS_ASSERTM(r, "a subscription made before is woken");
      trues += r;
      t.join();
      if (a) a->join();
      if (b) b->join();
    }
    VS_ASSERTM(wakes[3] == 1, "whoever subscribed before was woken once");
    for (int i = 0; i < times; ++i) trues += notify(e, 2);
    VS_ASSERTM(wakes[0] == times && wakes[1] == (subs > 1 ? 1 : 0), "no subscription is lost or duplicated");
    VS_ASSERTM(!notify(e, 2), "nobody is left");
    VS_ASSERT(trues >= 1 && trues <= wakes[0] + wakes[1] + wakes[3]);
  }
  VS_ASSERT(live == 0);
  vs_reach("end");
}
VS_ENTRY(ev_conc_int) { concurrent<int>(1, 2, 2); }         // @reach=end
VS_ENTRY(ev_conc_two_subs) { concurrent<int>(2, 1, 1); }    // @reach=end
VS_ENTRY(ev_conc_void) { concurrent<void>(2, 2, 1); }       // @reach=end
VS_ENTRY(ev_conc_obj) { concurrent<Obj>(1, 2, 2); }         // @reach=end
// callbacks set while others notify
VS_ENTRY(ev_conc_callback) {  // @reach=end
  {
    event<Obj> e;
    ghost calls;
    {
      std::thread t([&] {
        Live cap;
        e.set_callback([&calls, cap](Obj x) {
          VS_ASSERT(x.v >= 100 && x.v < 103);
          ++calls;
        });
      });
      std::thread u([&] { notify(e, 1); });
      notify(e, 0);
      t.join();
      u.join();
    }
    VS_ASSERT(calls <= 1);
    bool late = calls == 0;
    VS_ASSERT(notify(e, 2) == late && calls == 1);
    VS_ASSERT(!notify(e, 2));
  }
  VS_ASSERT(live == 0);
  vs_reach("end");
}
// awaiting an event from tasks
static task<int> waits(event<int>& e) { co_return co_await e; }
static Co root(event<int>& e, int& out) { out = co_await waits(e); }
VS_ENTRY(ev_task) {
  event<int> e;
  int out = 0, v = symv();
  root(e, out);
  VS_ASSERT(e.notify_all(this_thread_executor, v) && out == v);
}

// more subscribers; those that await again while they are resumed wait for the next notification
template <class T> static void crowd() {
  {
    event<T> e;
    int n = vs_choice("n", 11), times[12] = {};
    for (int i = 0; i < n; ++i) {
      times[i] = 1 + i % 3;
      if (times[i] == 1 && i % 2) {
        sub[i].subscribed = true;
        Live cap;
        if constexpr (std::is_void_v<T>) e.set_callback([i, cap] { woke(i, 0); });
        else e.set_callback([i, cap](T x) { woke(i, val(x)); });
      } else
        subscriber(e, i, times[i]);
    }
    for (int r = 0; r < 4; ++r) {
      int v = std::is_void_v<T> ? 0 : symv();
      bool any = false, late_ = vs_choice("late", 2);
      for (int i = 0; i < n; ++i)
        if (r < times[i]) {
          any = true;
          sub[i].expect++;
          sub[i].value = v;
        }
      bool res;
      in_exe = false;
      if (late_) {
        LateExe late;
        if constexpr (std::is_void_v<T>) res = e.notify_all(late);
        else res = e.notify_all(late, T(v));
        for (size_t i = 0; i < late.v.size(); ++i) {
          in_exe = true;
          late.v[i]->task.resume();
        }
      } else {
        if constexpr (std::is_void_v<T>) res = e.notify_all(Exe{});
        else res = e.notify_all(Exe{}, T(v));
      }
      VS_ASSERTM(res == any, "returns whether it woke anyone");
      for (int i = 0; i < n; ++i) VS_ASSERTM(sub[i].woken == sub[i].expect, "everyone subscribed before was woken, nobody else");
    }
    for (int i = 0; i < n; ++i) VS_ASSERT(!sub[i].subscribed && sub[i].woken == times[i]);
  }
  VS_ASSERTM(live == 0, "frames, callbacks and values are destroyed");
  vs_reach("end");
}
VS_ENTRY(ev_crowd_void) { crowd<void>(); }   // @reach=end
VS_ENTRY(ev_crowd_obj) { crowd<Obj>(); }     // @reach=end
