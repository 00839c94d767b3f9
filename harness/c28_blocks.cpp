// BOUND: programs of up to 3 (quick) / 4 (thorough) primitives over jobs nested 2 deep (plain and with a memory resource): suspension, destroy, transfer to null / to a waiting coroutine, destroy and transfer to null / to a waiting coroutine / to a suspended job, suspend_and returning nothing / true / false / a handle (own, other, noop), inner scope with exception, child job
// BOUND: suspended jobs are resumed in order or in reverse by the driver, or destroyed; scope exits leave by end, return, break, exception, destruction while suspended, with captured objects
// BOUND: own handle in generator, channel, task, async_task, job, logical_thread and their resourced forms
// @must_compile
#include "seq.h"
#include <kelcoro/kelcoro.hpp>
#include <kelcoro/algorithm.hpp>
#include <kelcoro/logical_thread.hpp>
using namespace dd;
#ifdef VS_THOROUGH
constexpr int FUEL = 4;
#else
constexpr int FUEL = 3;
#endif
struct SmallRes {
  int id = 0;
  void* allocate(size_t n) { return ::operator new(n); }
  void deallocate(void* p, size_t) noexcept { ::operator delete(p); }
};
enum St { NONE, RUNNING, SUSPENDED, DEAD };
static int st[24], entered[24], exits[24], ids;
static std::coroutine_handle<> hs[24];     // handle of a suspended job
static int pend[24], npend;                // suspended jobs, oldest first
static int waiting_target, target_hits, expected_hits;
static std::coroutine_handle<> target;
struct Dead {                               // the frame of job 'id' is left
  int id;
  Live l;
  explicit Dead(int id) : id(id) {}
  Dead(const Dead&) = delete;
  ~Dead() {
    VS_ASSERTM(st[id] == RUNNING || st[id] == SUSPENDED, "a coroutine is destroyed once");
    VS_ASSERTM(exits[id] == 1, "the scope exit ran, once, when the coroutine is left");
    st[id] = DEAD;
  }
};
static void suspended(int id, std::coroutine_handle<> h) {
  st[id] = SUSPENDED;
  hs[id] = h;
  pend[npend++] = id;
}
static void resumed(int id) { VS_ASSERTM(st[id] == RUNNING, "a coroutine continues only if it is resumed or did not suspend"); }
struct Wait {                               // plain suspension
  int id;
  static bool await_ready() noexcept { return false; }
  void await_suspend(std::coroutine_handle<> h) noexcept { suspended(id, h); }
  void await_resume() noexcept { resumed(id); }
};
struct Accept {
  static bool await_ready() noexcept { return false; }
  void await_suspend(std::coroutine_handle<> h) noexcept { target = h; }
  static void await_resume() noexcept {}
};
static Co acceptor() {
  Live l;
  co_await Accept{};
  ++target_hits;
}
static std::coroutine_handle<> make_target() {
  acceptor();
  ++expected_hits;
  return target;
}
static void settled(int id) { VS_ASSERTM(st[id] != RUNNING, "control comes back when the coroutine is suspended or gone"); }
template <class J> static J prog(int id, int depth, bool park_first) {
  Dead dead(id);
  entered[id]++;
  st[id] = RUNNING;
  scope_exit on_exit([id] { exits[id]++; });
  if (park_first) co_await Wait{id};
  while (fuel > 0) {
    --fuel;
    int k = vs_choice("item", depth ? 16 : 14);
    if (k == 0) co_return;
    if (k == 1) {
      co_await Wait{id};
      resumed(id);
    }
    if (k == 2) {
      co_await this_coro::destroy;
      VS_ASSERTM(0, "a destroyed coroutine continues");
    }
    if (k == 3) {
      co_await transfer_control_to{nullptr};
      resumed(id);
    }
    if (k == 4) {
      auto me = co_await this_coro::handle;
      auto t = make_target();
      suspended(id, me);
      int hits = target_hits;
      co_await transfer_control_to{t};
      VS_ASSERTM(target_hits > hits, "the target ran before the coroutine is resumed");
      resumed(id);
    }
    if (k == 5) {
      co_await this_coro::destroy_and_transfer_control_to(nullptr);
      VS_ASSERTM(0, "a destroyed coroutine continues");
    }
    if (k == 6) {
      co_await this_coro::destroy_and_transfer_control_to(make_target());
      VS_ASSERTM(0, "a destroyed coroutine continues");
    }
    if (k == 7) {                            // hands over to the oldest suspended job
      if (npend == 0) continue;
      int o = pend[0];
      for (int i = 1; i < npend; i++) pend[i - 1] = pend[i];
      npend--;
      st[o] = RUNNING;
      if (vs_choice("die", 2)) {
        co_await this_coro::destroy_and_transfer_control_to(hs[o]);
        VS_ASSERTM(0, "a destroyed coroutine continues");
      } else {
        auto me = co_await this_coro::handle;
        suspended(id, me);
        co_await transfer_control_to{hs[o]};
        resumed(id);
      }
    }
    if (k == 8) {                            // suspend_and, nothing returned
      auto me = co_await this_coro::handle;
      int calls = 0;
      Live counted;
      co_await this_coro::suspend_and([&calls, id, me, counted](auto h) {
        ++calls;
        VS_ASSERTM(h == me, "the function gets the handle of the coroutine");
        suspended(id, h);
      });
      VS_ASSERTM(calls == 1, "the function is called once");
      resumed(id);
    }
    if (k == 9) {                            // suspend_and returning bool
      bool stay = vs_choice("stay", 2);
      int calls = 0;
      co_await this_coro::suspend_and([&](std::coroutine_handle<> h) {
        ++calls;
        if (stay) suspended(id, h);
        return stay;
      });
      VS_ASSERTM(calls == 1, "the function is called once");
      resumed(id);
    }
    if (k == 10) {                           // suspend_and returning a handle
      int to = vs_choice("to", 3), calls = 0, hits = target_hits;
      auto fn = [&](std::coroutine_handle<> h) -> std::coroutine_handle<> {
        ++calls;
        if (to == 0) return h;
        suspended(id, h);
        return to == 1 ? make_target() : std::noop_coroutine();
      };
      co_await this_coro::suspend_and(fn);
      VS_ASSERTM(calls == 1 && (to != 1 || target_hits > hits), "the function is called once and its target runs");
      resumed(id);
    }
    if (k == 11) {                           // the function destroys the coroutine
      co_await this_coro::suspend_and([](std::coroutine_handle<> h) { h.destroy(); });
      VS_ASSERTM(0, "a destroyed coroutine continues");
    }
    if (k == 12) {                           // leaves an inner scope by an exception, end or break
      int how = vs_choice("leave", 4), inner = 0, outer = 0;
      try {
        scope_exit a([&] { VS_ASSERTM(++outer == 1 && inner == 1, "scope exits run once, inside out"); });
        do {
          Live tracked;
          scope_exit b([&inner, &outer, tracked] { VS_ASSERTM(++inner == 1 && outer == 0, "scope exits run once, inside out"); });
          VS_ASSERTM(inner == 0, "a scope exit runs when the scope is left");
          if (how == 1) throw Boom{4};
          if (how == 2) break;
          if (how == 3) co_await Wait{id};
        } while (0);
        VS_ASSERTM(inner == 1 && outer == 0, "a scope exit runs when the scope is left");
      } catch (Boom& b) {
        VS_ASSERTM(how == 1 && b.tag == 4, "the exception goes on");
      }
      VS_ASSERTM(inner == 1 && outer == 1, "a scope exit runs when the scope is left");
    }
    if (k == 13) {                           // handle does not suspend
      auto a = co_await this_coro::handle;
      auto b = co_await this_coro::handle;
      resumed(id);
      VS_ASSERTM(a == b && a.address() && !a.done(), "the own handle");
      VS_ASSERTM(!hs[id] || hs[id] == a, "the own handle is the handle that suspends");
    }
    if (k == 14) {
      int c = ++ids;
      prog<job>(c, depth - 1, false);
      VS_ASSERTM(entered[c] == 1, "a job starts at once");
      settled(c);
      resumed(id);
    }
    if (k == 15) {
      int c = ++ids;
      job_r<SmallRes> j = prog<job_r<SmallRes>>(c, depth - 1, true);
      VS_ASSERTM(entered[c] == 1 && st[c] == SUSPENDED, "a job starts at once and runs to its first suspension");
      VS_ASSERTM(j.handle == hs[c], "the job names its coroutine");
    }
  }
}
VS_ENTRY(programs) {  // @reach=end,destroyed,reversed @time=300 @ttime=3000
  fuel = FUEL;
  ids = 0;
  if (vs_choice("resourced", 2)) {
    job_r<SmallRes> j = prog<job_r<SmallRes>>(0, 1, true);
    VS_ASSERT(j.handle == hs[0]);
  } else
    prog<job>(0, 1, false);
  settled(0);
  if (npend) {
    int mode = 2 * vs_choice("destroy", 2);
    if (!mode && npend > 1) mode = vs_choice("reverse", 2);
    while (npend) {
      int o;
      if (mode == 1) {
        vs_reach("reversed");
        o = pend[--npend];
      } else {
        o = pend[0];
        for (int i = 1; i < npend; i++) pend[i - 1] = pend[i];
        npend--;
      }
      if (mode == 2) {
        vs_reach("destroyed");
        hs[o].destroy();
        VS_ASSERTM(st[o] == DEAD, "destroyed");
      } else {
        st[o] = RUNNING;
        hs[o].resume();
        settled(o);
      }
    }
  }
  VS_ASSERTM(target_hits == expected_hits, "a coroutine given control runs exactly once");
  for (int i = 0; i <= ids; i++) VS_ASSERTM(entered[i] == 1 && exits[i] == 1 && st[i] == DEAD, "each job ran, was left once and freed itself");
  VS_ASSERTM(live == 0 && vs_heap_live() == 0, "every object and frame is gone");
  vs_reach("end");
}
// a job ends the program when it throws
static job throws(bool park, int v) {
  Live l;
  if (park) co_await Park{};
  throw Boom{v};
}
VS_ENTRY(job_throws) {  // @reach=thrown
  bool park = vs_choice("park", 2);
  if (park) throws(true, symv());
  vs_reach("thrown");
  vs_expect_terminate();
  if (park) drive(false);
  else throws(false, symv());
  vs_assert(0, "an exception in a job must end the program");
}
static job plain_job(int& ran, bool park) {
  Live l;
  ++ran;
  if (park) co_await Park{};
  ++ran;
}
VS_ENTRY(job_object) {  // @reach=end
  int ran = 0;
  job none;
  VS_ASSERT(!none.handle);
  bool park = vs_choice("park", 2);
  job j = plain_job(ran, park);
  VS_ASSERTM(ran == (park ? 1 : 2), "a job runs at once to its end or first suspension");
  VS_ASSERTM(!park || (std::coroutine_handle<>)j.handle == parked, "the job names its coroutine");
  if (park && vs_choice("destroy", 2)) {
    j.handle.destroy();
    parked = nullptr;
    ran = 2;
  }
  drive(true);
  VS_ASSERTM(ran == 2 && live == 0 && vs_heap_live() == 0, "the frame is freed at the end");
  vs_reach("end");
}
// ---------- own handle, for every kind of coroutine
static int before, after_;
template <class H> static void own(H a, std::coroutine_handle<> real) {
  VS_ASSERTM(a.address() == real.address(), "the own handle");
}
template <class G> static G gbody(std::coroutine_handle<>& real) {
  own(co_await this_coro::handle, real);
  ++before;
  co_yield 1;
  own(co_await this_coro::handle, real);
  ++before;
  co_yield 2;
}
template <class J> static J jbody(std::coroutine_handle<>& real) {
  auto a = co_await this_coro::handle;
  ++before;
  co_await Park{};
  own(a, real);
  own(co_await this_coro::handle, real);
  ++before;
}
template <class C> static Co consume(std::coroutine_handle<>& real) {
  C c = gbody<C>(real);
  real = c.raw_handle();
  int n = 0;
  for (auto it = co_await c.begin(); it != c.end(); (void)(co_await (++it))) VS_ASSERTM(*it == ++n, "value");
  VS_ASSERT(n == 2);
}
template <class T> static Co await_it(std::coroutine_handle<>& real) {
  T t = jbody<T>(real);
  real = t.raw_handle();
  co_await t;
  ++after_;
}
VS_ENTRY(own_handle) {  // @reach=end
  std::coroutine_handle<> real;
  int k = vs_choice("kind", 12);
  auto gen = [&]<class G>(std::type_identity<G>) {
    G g = gbody<G>(real);
    real = g.raw_handle();
    int n = 0;
    for (int x : g) VS_ASSERTM(x == ++n, "value");
    VS_ASSERT(n == 2);
  };
  auto run = [&](bool thr) {
    real = parked;
    drive(thr);
  };
  switch (k) {
    case 0: gen(std::type_identity<generator<int>>{}); break;
    case 1: gen(std::type_identity<generator_r<int, SmallRes>>{}); break;
    case 2: consume<channel<int>>(real); break;
    case 3: consume<channel_r<int, SmallRes>>(real); break;
    case 4: await_it<task<void>>(real); drive(true); break;
    case 5: await_it<task_r<void, SmallRes>>(real); drive(true); break;
    case 6: jbody<job>(real); run(true); break;
    case 7: jbody<job_r<SmallRes>>(real); run(true); break;
    case 8: { auto t = jbody<async_task<void>>(real); run(true); t.get(); break; }
    case 9: { auto t = jbody<async_task_r<void, SmallRes>>(real); run(true); t.get(); break; }
    case 10: { auto t = jbody<logical_thread>(real); run(true); t.join(); break; }
    default: { auto t = jbody<logical_thread_r<SmallRes>>(real); run(true); t.join(); break; }
  }
  VS_ASSERTM(before == 2, "awaiting the handle does not suspend");
  VS_ASSERTM(vs_heap_live() == 0, "no frame is left");
  vs_reach("end");
}
// the handle works: another coroutine can be resumed through it exactly there
VS_ENTRY(handle_resumes) {  // @reach=end
  static int steps;
  static std::coroutine_handle<> saved;
  [](Live) -> job {
    saved = co_await this_coro::handle;
    ++steps;
    co_await std::suspend_always{};
    ++steps;
    co_await this_coro::suspend_and([](auto) {});
    ++steps;
  }(Live{});
  VS_ASSERT(steps == 1 && !saved.done());
  saved.resume();
  VS_ASSERT(steps == 2);
  if (vs_choice("finish", 2)) {
    saved.resume();
    VS_ASSERT(steps == 3);
  } else
    saved.destroy();
  VS_ASSERTM(live == 0 && vs_heap_live() == 0, "every object and frame is gone");
  vs_reach("end");
}
// long chains of transfers use no stack growth visible to the program and visit each coroutine once
static int visited[8], chain_n;
static std::coroutine_handle<> chain[8];
struct Keep {
  int i;
  static bool await_ready() noexcept { return false; }
  void await_suspend(std::coroutine_handle<> h) noexcept { chain[i] = h; }
  static void await_resume() noexcept {}
};
static job link(int i, int kind) {
  Live l;
  co_await Keep{i};
  visited[i]++;
  auto next = i + 1 < chain_n ? chain[i + 1] : nullptr;
  if (kind == 0) co_await this_coro::destroy_and_transfer_control_to(next);
  else {
    // once control is given away nobody resumes this one: free it from the next link
    if (next) co_await transfer_control_to{next};
  }
  VS_ASSERTM(kind != 0 && !next, "a destroyed coroutine continues");
}
VS_ENTRY(chains) {  // @reach=end
  chain_n = 1 + vs_choice("n", 6);
  int kinds[8];
  for (int i = 0; i < chain_n; i++) link(i, kinds[i] = vs_choice("kind", 2));
  chain[0].resume();
  for (int i = 0; i < chain_n; i++) {
    VS_ASSERTM(visited[i] == 1, "each coroutine of the chain is resumed once");
    if (kinds[i] == 1 && i + 1 < chain_n) chain[i].destroy();
  }
  VS_ASSERTM(live == 0 && vs_heap_live() == 0, "every object and frame is gone");
  vs_reach("end");
}
// ---------- scope_exit outside coroutines
struct Action {
  Live l;
  int& n;
  bool thr;
  Action(int& n, bool thr) : n(n), thr(thr) {}
  void operator()() noexcept(false) {
    ++n;
    if (thr) throw Boom{6};
  }
};
static int leave(int how, int& n, bool thr) {
  for (int i = 0; i < 2; i++) {
    scope_exit e{Action(n, thr)};
    VS_ASSERTM(n == i, "a scope exit runs when the scope is left");
    if (how == 0) return 1;
    if (how == 1) throw Boom{5};
    if (how == 2) break;
    if (how == 3) continue;
    if (how == 4) { goto out; }
  }
out:
  return 2;
}
VS_ENTRY(scope_exits) {  // @reach=end,threw
  int how = vs_choice("how", 5), n = 0;
  bool thr = vs_choice("action throws", 2);
  vs_assume(!(thr && how == 1));        // two exceptions at once end the program
  bool threw = false;
  try {
    leave(how, n, thr);
  } catch (Boom& b) {
    threw = true;
    VS_ASSERTM(b.tag == (how == 1 ? 5 : 6), "the exception goes on");
  }
  VS_ASSERTM(threw == (how == 1 || thr), "exceptions of the body or of the action go on");
  VS_ASSERTM(n == (how == 3 && !thr ? 2 : 1), "the action runs exactly once per scope");
  VS_ASSERTM(live == 0, "the action is destroyed");
  if (threw) vs_reach("threw");
  vs_reach("end");
}
// ---------- awaitables made in one place and awaited in another: they hold what they need
[[gnu::noinline]] static auto make_fn(int* where, int v, bool* keep) {
  Live l;
  return this_coro::suspend_and([where, v, keep, l](auto h) {
    VS_ASSERTM(l.magic == 7711, "the function object lives as long as the awaitable");
    *where += v;
    return !*keep ? false : (parked = h, true);
  });
}
[[gnu::noinline]] static auto make_transfer(std::coroutine_handle<> h) { return transfer_control_to{h}; }
[[gnu::noinline]] static auto make_named(int* where) {
  auto fn = [where](std::coroutine_handle<>) { ++*where; return false; };
  return this_coro::suspend_and(fn);
}
[[gnu::noinline]] static int other_calls(int v) {
  volatile int a[64];
  for (int i = 0; i < 64; ++i) a[i] = v;
  return a[v & 63];
}
static job stored(int how, int* where, int v, bool keep, int* n) {
  Live l;
  if (how == 0) {
    auto s = make_fn(where, v, &keep);
    other_calls(v);
    co_await s;
    ++*n;
    co_await std::move(s);
  } else if (how == 1) {
    auto s = make_named(where);
    other_calls(v);
    co_await s;
  } else {
    auto s = make_transfer(nullptr);
    other_calls(v);
    co_await s;
  }
  ++*n;
}
VS_ENTRY(stored_awaitables) {  // @reach=end
  int how = vs_choice("how", 3), v = symv() & 0xffff, where = 0, n = 0;
  bool keep = vs_choice("keep", 2);
  stored(how, &where, v, keep, &n);
  int resumes = 0;
  while (parked) {
    ++resumes;
    std::exchange(parked, nullptr).resume();
  }
  VS_ASSERT(resumes == (how == 0 && keep ? 2 : 0));
  VS_ASSERTM(where == (how == 0 ? 2 * v : how == 1 ? 1 : 0), "the function is called once per await");
  VS_ASSERT(n == (how == 0 ? 2 : 1));
  VS_ASSERTM(live == 0 && vs_heap_live() == 0, "nothing is left");
  vs_reach("end");
}
// ---------- build_awaiter
struct Aw {
  int v;
  bool await_ready() { return true; }
  void await_suspend(std::coroutine_handle<>) {}
  int await_resume() { return v; }
};
struct WithMember { int v; Aw operator co_await() const { return {v + 1}; } };
struct WithGlobal { int v; };
static Aw operator co_await(const WithGlobal& g) { return {g.v + 2}; }
VS_ENTRY(awaiters) {  // @reach=end
  int v = symv() & 0xffff;
  Aw a{v};
  static_assert(std::is_same_v<decltype(build_awaiter(a)), Aw&>);
  VS_ASSERTM(&build_awaiter(a) == &a, "an awaiter is its own awaiter");
  VS_ASSERTM(build_awaiter(WithMember{v}).await_resume() == v + 1, "the member operator is used");
  VS_ASSERTM(build_awaiter(WithGlobal{v}).await_resume() == v + 2, "the free operator is used");
  static_assert(co_awaiter<Aw> && co_awaitable<WithMember> && co_awaitable<WithGlobal> && !co_awaitable<int>);
  vs_reach("end");
}
