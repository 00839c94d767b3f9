// Shared pieces of the sequence harnesses (generators, channels): expected values, tracked locals, fuel.
#pragma once
#include "pre.h"
struct Fifo {
  int v[160];
  int h = 0, t = 0;
  void push(int x) { v[t++] = x; }
  bool empty() const { return h == t; }
  int pop() { return v[h++]; }
};
inline Fifo q;                 // values yielded (or announced) and not yet received
inline int fuel;               // how many more items bodies may produce
inline ghost live;               // tracked locals alive (race free counter)
inline int started;             // bodies started
inline bool done_[64], failed_[64];
inline int next_id;
inline int new_id() { return next_id++; }
struct Live {                  // an object alive in a body
  int magic = 7711;
  Live() { ++live; }
  Live(const Live&) { ++live; }
  ~Live() {
    vs_assert(magic == 7711, "object destroyed twice or never constructed");
    magic = 0;
    --live;
  }
};
struct Boom { int tag; };      // exception type of the harnesses
inline int symv() { return (int)vs_sym("v", 32); }
inline void got(int x) {
  vs_assert(!q.empty(), "a value is delivered that was not yielded (or twice)");
  vs_assert(q.pop() == x, "the delivered value is the yielded one");
}
#define CLEAN() VS_ASSERTM(q.empty(), "every yielded value was delivered before the body went on")
// fire and forget coroutine of the harness (starts at once, frees itself)
struct Co {
  struct promise_type {
    Co get_return_object() noexcept { return {}; }
    std::suspend_never initial_suspend() noexcept { return {}; }
    std::suspend_never final_suspend() noexcept { return {}; }
    void return_void() noexcept {}
    void unhandled_exception() noexcept { vs_assert(0, "unexpected exception in a harness coroutine"); }
  };
};
// suspends the awaiting coroutine until the driver resumes it
inline std::coroutine_handle<> parked;
struct Park {
  static bool await_ready() noexcept { return false; }
  void await_suspend(std::coroutine_handle<> h) noexcept {
    vs_assert(!parked, "one coroutine is parked at a time");
    parked = h;
  }
  static void await_resume() noexcept {}
};
inline void resume_on(std::coroutine_handle<> h, bool thread) {
  if (thread) {
    std::thread t([h] { h.resume(); });
    t.join();
  } else
    h.resume();
}
inline void drive(bool threads) {
  while (parked) {
    auto h = parked;
    parked = nullptr;
    resume_on(h, threads && vs_choice("thread", 2));
  }
}
