// programs that end and programs that do not: "expect" says which
#include <atomic>
#include <thread>
#include <mutex>
#include "vs.h"
#define E(n) extern "C" void vs_main_##n()
std::atomic<int> flag, turn;
// expect ok: the other thread always sets the flag
E(spin_ok) { std::thread t([] { while (!flag.load()) vs_yield(); }); flag.store(1); t.join(); }
// expect livelock: nobody sets it; two spinning threads
E(spin_two) { std::thread t([] { while (!flag.load()) vs_yield(); }), u([] { while (!flag.load()) vs_yield(); }); t.join(); u.join(); }
// expect livelock: one spinning thread
E(spin_one) { std::thread t([] { while (!flag.load()) vs_yield(); }); t.join(); }
// expect livelock: only for one value of a symbol
E(spin_sym) { unsigned x = vs_sym("x", 8); std::thread t([=] { while (x == 77 && !flag.load()) vs_yield(); }), u([=] { while (x == 77 && !turn.load()) vs_yield(); }); t.join(); u.join(); }
// expect livelock: only in one interleaving
E(spin_race) {
  std::thread t([] { if (turn.exchange(1) == 1) while (!flag.load()) vs_yield(); });
  std::thread u([] { turn.store(2); while (turn.load() == 1 && !flag.load()) vs_yield(); });
  t.join(); u.join();
}
// expect ok: a backoff that can go on for ever but need not
E(try_lock) {
  static std::mutex a, b;
  auto f = [](std::mutex& x, std::mutex& y) { for (;;) { x.lock(); if (y.try_lock()) { y.unlock(); x.unlock(); return; } x.unlock(); vs_yield(); } };
  std::thread t([&] { f(a, b); }), u([&] { f(b, a); });
  t.join(); u.join();
}
