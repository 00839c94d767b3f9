// BOUND: one or two logical threads whose bodies suspend 0-2 times, each resumed by its own thread, one owner thread with up to 3 (quick) / 4 (thorough) operations of {request_stop, move, move-assign over, swap, detach, join, destroy}; every interleaving
// BOUND: bodies that poll their stop token until a stop is seen (termination is required), or read it once
// @must_compile
#include "seq.h"
#include <kelcoro/logical_thread.hpp>
using namespace dd;
#ifdef VS_THOROUGH
constexpr int OPS = 4;
#else
constexpr int OPS = 3;
#endif
struct Slot {
  int handed, handed2, released;
  std::coroutine_handle<> hand;
  int data;
  ghost started, finished, requested;
};
static Slot slot[3];
struct Hand {
  Slot& s;
  int* sig;
  static bool await_ready() noexcept { return false; }
  void await_suspend(std::coroutine_handle<> h) noexcept {
    s.hand = h;
    vsg_signal(sig);
  }
  static void await_resume() noexcept {}
};
static void resumer(Slot& s, int n) {
  vsg_await(n == 1 ? &s.handed : &s.handed2);
  s.hand.resume();
}
static logical_thread body(Slot& s, int susp, int poll) {
  Live l;
  ++s.started;
  const stop_token tok = co_await this_coro::stop_token;
  VS_ASSERTM(!tok.stop_requested(), "no stop seen without a request");
  if (susp >= 1) co_await Hand{s, &s.handed};
  bool st = tok.stop_requested();
  VS_ASSERTM(!st || s.requested, "no stop seen without a request");
  if (poll)
    while (!tok.stop_requested()) vs_yield();
  if (susp >= 2) co_await Hand{s, &s.handed2};
  if (st || poll) VS_ASSERTM(tok.stop_requested(), "a stop once seen stays");
  s.data = 9;
  ++s.finished;
}
static void done(Slot& s) {
  VS_ASSERTM(s.started == 1 && s.finished == 1, "returns only after the body finished");
  VS_ASSERTM(s.data == 9, "its effects are visible");
}
// arbitrary owner history over a running logical thread
static void history(int susp, int poll) {
  Slot& s = slot[0];
  {
    std::optional<logical_thread> a;
    a.emplace(body(s, susp, poll));
    VS_ASSERTM(s.started == 1, "starts at once");
    VS_ASSERT(a->joinable() && a->stop_possible());
    bool settled = false;
    for (int i = 0; i < OPS && !settled; ++i) {
      switch (vs_choice("op", 7)) {
        case 0:
          s.requested = 1;
          VS_ASSERT(a->request_stop());
          break;
        case 1: {
          logical_thread b(std::move(*a));
          VS_ASSERT(!a->joinable() && b.joinable());
          VS_ASSERTM(!a->request_stop() && !a->stop_possible(), "nothing to stop in an empty one");
          *a = std::move(b);
          VS_ASSERT(!b.joinable() && a->joinable());
          break;
        }
        case 2: {
          logical_thread b;
          VS_ASSERT(!b.joinable() && !b.request_stop());
          swap(b, *a);
          VS_ASSERT(!a->joinable());
          a->swap(b);
          VS_ASSERT(a->joinable());
          break;
        }
        case 3: {                               // assign over: requests stop and joins
          logical_thread e;
          s.requested = 1;
          *a = std::move(e);
          VS_ASSERT(!a->joinable());
          done(s);
          VS_ASSERT(live == 0);
          settled = true;
          vs_reach("assigned");
          break;
        }
        case 4:
          if (poll && !s.requested) {
            s.requested = 1;
            a->request_stop();
          }
          a->detach();
          VS_ASSERT(!a->joinable());
          settled = true;
          vs_reach("detached");
          break;
        case 5:
          if (poll && !s.requested) {
            s.requested = 1;
            a->request_stop();
          }
          a->join();
          VS_ASSERT(!a->joinable());
          done(s);
          VS_ASSERT(live == 0);
          settled = true;
          vs_reach("joined");
          break;
        case 6: i = OPS; break;
      }
    }
    s.requested = 1;
    bool run = a->joinable();
    a.reset();                                  // destruction requests stop and joins
    if (run) {
      done(s);
      VS_ASSERT(live == 0);
      vs_reach("destroyed");
    }
  }
}
static void scenario(int susp, int poll) {
  std::optional<std::thread> t, u;
  if (susp >= 1) t.emplace([] { resumer(slot[0], 1); });
  if (susp >= 2) u.emplace([] { resumer(slot[0], 2); });
  history(susp, poll);
  if (t) t->join();
  if (u) u->join();
  VS_ASSERTM(slot[0].finished == 1 && live == 0 && vs_heap_live() == 0, "the body finished once and the frame is freed");
}
VS_ENTRY(lt_once) { scenario(1, 0); }   // @reach=joined,detached,assigned,destroyed
VS_ENTRY(lt_twice) { scenario(2, 0); }  // @reach=joined,detached,assigned,destroyed
VS_ENTRY(lt_poll) { scenario(1, 1); }   // @reach=joined,detached,assigned,destroyed
VS_ENTRY(lt_poll2) { scenario(2, 1); }  // @reach=joined,detached,assigned,destroyed
VS_ENTRY(lt_now) { scenario(0, 0); }    // @reach=joined,detached,assigned,destroyed
// assigning a new running logical thread over a running one
VS_ENTRY(lt_assign_over) {  // @reach=end
  std::thread t([] { resumer(slot[0], 1); });
  std::thread u([] { resumer(slot[1], 1); });
  {
    logical_thread a = body(slot[0], 1, 1);
    logical_thread b = body(slot[1], 1, 0);
    slot[0].requested = 1;
    a = std::move(b);
    done(slot[0]);
    VS_ASSERT(a.joinable() && !b.joinable());
    VS_ASSERTM(slot[1].finished <= 1, "the new one keeps running");
    switch (vs_choice("then", 3)) {
      case 0: a.join(); done(slot[1]); break;
      case 1: a.detach(); break;
      case 2: slot[1].requested = 1; break;
    }
  }
  t.join();
  u.join();
  VS_ASSERT(live == 0 && slot[1].finished == 1);
  vs_reach("end");
}
// a stop request made before the body continues is seen
static logical_thread sees(Slot& s) {
  const stop_token tok = co_await this_coro::stop_token;
  co_await Hand{s, &s.handed};
  VS_ASSERTM(tok.stop_requested(), "a request is seen");
  ++s.finished;
}
VS_ENTRY(lt_request_seen) {
  {
    logical_thread a = sees(slot[0]);
    a.request_stop();
    std::thread t([] { resumer(slot[0], 1); });
    if (vs_choice("join", 2)) a.join();
    t.join();
  }
  VS_ASSERT(slot[0].finished == 1);
}
// what was done before request_stop is visible to a body that saw the request
static int note_before;
static logical_thread reads_note(Slot& s) {
  const stop_token tok = co_await this_coro::stop_token;
  co_await Hand{s, &s.handed};
  if (tok.stop_requested()) {
    VS_ASSERTM(note_before == 7, "what was done before the request is visible");
    vs_reach("seen");
  } else {
    vs_reach("early");
  }
  ++s.finished;
}
VS_ENTRY(lt_request_publishes) {  // @reach=seen,early
  {
    logical_thread a = reads_note(slot[0]);
    std::thread t([] { resumer(slot[0], 1); });
    note_before = 7;
    a.request_stop();
    a.join();
    t.join();
  }
  VS_ASSERT(slot[0].finished == 1);
}
// stop(a, b, c): stop requested on all before any is joined
static logical_thread needs_all(int i, int n) {
  const stop_token tok = co_await this_coro::stop_token;
  co_await Hand{slot[i], &slot[i].handed};
  while (!tok.stop_requested()) vs_yield();
  vsg_signal(&slot[i].released);
  for (int k = 0; k < n; ++k) vsg_await(&slot[k].released);   // ends only when all have seen the request
  ++slot[i].finished;
}
VS_ENTRY(lt_stop_many) {  // @reach=end
  int n = 2;
  std::thread t([] { resumer(slot[0], 1); });
  std::thread u([] { resumer(slot[1], 1); });
  if (vs_choice("range", 2)) {
    std::vector<logical_thread> v;
    for (int i = 0; i < n; ++i) v.push_back(needs_all(i, n));
    stop(v);
    for (auto& x : v) VS_ASSERT(!x.joinable());
  } else {
    logical_thread a = needs_all(0, n), b = needs_all(1, n);
    stop(a, b);
    VS_ASSERT(!a.joinable() && !b.joinable());
  }
  VS_ASSERT(slot[0].finished == 1 && slot[1].finished == 1);
  t.join();
  u.join();
  vs_reach("end");
}
// with a memory resource
struct counting {
  static inline ghost out;
  size_t pad = 3;
  void* allocate(size_t n) {
    ++out;
    return ::operator new(n);
  }
  void deallocate(void* p, size_t n) noexcept {
    VS_ASSERT(pad == 3);
    --out;
    ::operator delete(p);
  }
};
static logical_thread rbody(Slot& s, with_resource<counting>) {
  const stop_token tok = co_await this_coro::stop_token;
  co_await Hand{s, &s.handed};
  while (!tok.stop_requested()) vs_yield();
  s.data = 9;
  ++s.finished;
}
VS_ENTRY(lt_resource) {  // @reach=end
  std::thread t([] { resumer(slot[0], 1); });
  {
    logical_thread a = rbody(slot[0], counting{});
    VS_ASSERT(counting::out == 1);
    a.request_stop();
    if (vs_choice("detach", 2)) a.detach();
  }
  t.join();
  VS_ASSERT(counting::out == 0 && slot[0].finished == 1);
  vs_reach("end");
}
// an exception nobody can receive ends the program, whatever the owner does meanwhile
static ghost thrown;
static logical_thread throws(Slot& s, bool later) {
  Live l;
  if (later) co_await Hand{s, &s.handed};
  ++thrown;
  throw 7;
}
VS_ENTRY(lt_throws) {  // @reach=now,later
  bool later = vs_choice("later", 2);
  vs_expect_terminate();
  vs_reach(later ? "later" : "now");
  {
    logical_thread a = throws(slot[0], later);
    VS_ASSERTM(thrown == 0, "an exception of the body must end the program");
    std::thread t([] { resumer(slot[0], 1); });
    switch (vs_choice("owner", 3)) {
      case 0: a.join(); break;
      case 1: a.detach(); break;
      case 2: break;
    }
    t.join();
  }
  vs_assert(0, "an exception of the body must end the program");
}
