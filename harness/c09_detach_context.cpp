// BOUND: task trees of depth <= 3 with at most 4 (quick) / 5 (thorough) items (suspension, awaited child, detached child, when_all over 1-3 children, throw), values symbolic
// BOUND: starts: start_and_detach(false/true), detach()+resume, co_await, wait(), from coroutines with and without context
// BOUND: fixed shapes: chains of owners of depth 0-8 with up to two suspensions anywhere, when_all over 0-8 tasks
// BOUND: detached task finished by another thread while the caller goes on, every interleaving
// @must_compile
#include "seq.h"
#include <kelcoro/task.hpp>
#include <kelcoro/algorithm.hpp>
using namespace dd;
#ifdef VS_THOROUGH
constexpr int FUEL = 5;
#else
constexpr int FUEL = 4;
#endif
enum { OWNER = 1, START = 2, BODY = 3, BODYEND = 4, END = 5, DEAD = 6 };
struct Rec {
  int st;                    // last event
  int owners;
  void* owner;               // owner told to the context
  void* expect_owner;        // owner that really awaits (null: detached)
  void* self;
  bool nobody;               // library coroutine (when_all): its body reports nothing
};
static Rec rec[32];
static void step(int id, int to) {
  int from = rec[id].st;
  bool ok = false;
  switch (to) {
    case OWNER: ok = from == 0; break;
    case START: ok = rec[id].expect_owner ? from == OWNER : from == 0; break;
    case BODY: ok = from == START; break;
    case BODYEND: ok = from == BODY; break;
    case END: ok = from == (rec[id].nobody ? START : BODYEND); break;
    case DEAD: ok = true; break;
  }
  VS_ASSERTM(ok, "owner, start, body, end come once and in this order");
  rec[id].st = to;
}
struct Ctx {
  int id = -1;
  template <class O, class T>
  void on_owner_setted(std::coroutine_handle<O> o, std::coroutine_handle<T> t) noexcept {
    VS_ASSERTM(o && t, "never told null handles");
    VS_ASSERTM(o.address() == rec[id].expect_owner, "told its real owner");
    VS_ASSERTM(t.address() == rec[id].self, "told its own handle");
    step(id, OWNER);
  }
  template <class T>
  void on_start(std::coroutine_handle<T> t) noexcept {
    VS_ASSERT(t.address() == rec[id].self && &t.promise().ctx == this);
    step(id, START);
  }
  template <class T>
  void on_end(std::coroutine_handle<T> t) noexcept {
    VS_ASSERT(t.address() == rec[id].self && &t.promise().ctx == this);
    step(id, END);
  }
  ~Ctx() {
    if (id >= 0) {
      VS_ASSERTM(rec[id].st != DEAD, "destroyed once");
      VS_ASSERTM(rec[id].st == 0 || rec[id].st == END, "a started task is destroyed after its end only");
      rec[id].st = DEAD;
    }
  }
};
using T = task<int, Ctx>;
static T body(int id, int depth);
static T make(int depth) {
  int id = new_id();
  T t = body(id, depth);
  t.get_context()->id = id;
  rec[id].self = t.raw_handle().address();
  return t;
}
static void detached(T t) {
  int id = t.get_context()->id;
  void* self = t.raw_handle().address();
  switch (vs_choice("detach", 3)) {
    case 0: {
      t.start_and_detach();
      VS_ASSERT(t.empty() && t.get_context() == nullptr);
      VS_ASSERTM(rec[id].st == DEAD || rec[id].st == BODY, "runs at once; frees itself at its end");
      break;
    }
    case 1: {
      auto h = t.start_and_detach(true);
      VS_ASSERT(t.empty() && h && h.address() == self);
      if (h.done()) {
        VS_ASSERTM(rec[id].st == END, "a task asked to stop at its end stays finished");
        h.destroy();
        VS_ASSERT(rec[id].st == DEAD);
      } else {
        VS_ASSERT(rec[id].st == BODY);
        drive(false);
        VS_ASSERT(h.done() && rec[id].st == END);
        h.destroy();
      }
      break;
    }
    case 2: {                       // finished before: stays for the caller or is freed
      auto h = t.start_and_detach(true);
      drive(false);
      T again(h);
      if (vs_choice("stop", 2)) {
        auto h2 = again.start_and_detach(true);
        VS_ASSERT(h2 == h && again.empty() && rec[id].st == END);
        h2.destroy();
      } else {
        VS_ASSERTM(!again.start_and_detach(), "already finished and freed: null handle");
        VS_ASSERT(again.empty());
      }
      VS_ASSERT(rec[id].st == DEAD);
      break;
    }
  }
}
// gives a when_all task an identity; it owns the tasks ids[0..n)
template <class A> static int adopt(A& all, void* owner, int* ids, int n) {
  int w = new_id();
  all.get_context()->id = w;
  rec[w].nobody = true;
  rec[w].self = all.raw_handle().address();
  rec[w].expect_owner = owner;
  for (int i = 0; i < n; ++i) rec[ids[i]].expect_owner = rec[w].self;
  return w;
}
static void all_ended(int w, int* ids, int n) {
  for (int i = 0; i < n; ++i)
    VS_ASSERTM(rec[ids[i]].st == END, "all children ended before when_all completes");
  VS_ASSERT(rec[w].st == END);
}
static T body(int id, int depth) {
  Live l;
  step(id, BODY);
  Ctx& c = co_await this_coro::context;
  VS_ASSERTM(c.id == id, "the body sees its own context");
  auto me = co_await this_coro::handle;
  VS_ASSERT(me.address() == rec[id].self);
  int sum = 0;
  while (fuel > 0) {
    --fuel;
    int k = vs_choice("item", depth > 1 ? 6 : 3);
    if (k == 0) break;
    if (k == 1) {
      if (parked) continue;
      co_await Park{};
    }
    if (k == 2) {
      step(id, BODYEND);
      throw Boom{id};
    }
    if (k == 3) {
      T t = make(depth - 1);
      int c = t.get_context()->id;
      rec[c].expect_owner = me.address();
      if (vs_choice("wait", 2)) {
        co_await t.wait();
        VS_ASSERTM(rec[c].st == END, "the owner continues after the end");
      } else {
        try {
          sum += co_await t;
        } catch (Boom& b) {
          VS_ASSERT(b.tag == c);
        }
        VS_ASSERTM(rec[c].st == END, "told about the end also when it ends by exception");
      }
    }
    if (k == 4 && !parked) detached(make(depth - 1));
    if (k == 5) {
      // several tasks: the owner is the when_all coroutine
      int n = 1 + vs_choice("n", 2);
      int ids[3];
      {
        std::vector<T> v;
        for (int i = 0; i < n; ++i) {
          v.push_back(make(i ? 1 : depth - 1));
          ids[i] = v.back().get_context()->id;
        }
        if (n == 2 && vs_choice("fixed", 2)) {
          auto all = when_all(std::move(v[0]), std::move(v[1]));
          int w = adopt(all, me.address(), ids, n);
          co_await all.wait();
          all_ended(w, ids, n);
        } else {
          auto all = when_all(std::move(v));
          int w = adopt(all, me.address(), ids, n);
          co_await all.wait();
          all_ended(w, ids, n);
        }
      }
      for (int i = 0; i < n; ++i) VS_ASSERT(rec[ids[i]].st == DEAD);
    }
  }
  step(id, BODYEND);
  co_return sum;
}

static void settled() {
  for (int i = 0; i < next_id; ++i) VS_ASSERTM(rec[i].st == DEAD, "every task is destroyed exactly once");
  VS_ASSERT(live == 0);
}
VS_ENTRY(ctx_detached) {  // @reach=end
  fuel = FUEL;
  detached(make(2));
  drive(false);
  settled();
  vs_reach("end");
}
static bool finished;
static Co owner_co(int depth) {
  {
    auto me = co_await this_coro::handle;
    T t = make(depth);
    rec[0].expect_owner = me.address();
    if (vs_choice("wait", 2)) co_await t.wait();
    else {
      try {
        (void)co_await t;
      } catch (Boom& b) {
        VS_ASSERT(b.tag == 0);
      }
    }
    VS_ASSERT(rec[0].st == END);
  }
  VS_ASSERT(rec[0].st == DEAD);
  finished = true;
}
VS_ENTRY(ctx_awaited) {  // @reach=end
  fuel = FUEL;
  owner_co(3);
  drive(false);
  VS_ASSERT(finished);
  settled();
  vs_reach("end");
}
VS_ENTRY(ctx_unstarted) {
  fuel = FUEL;
  {
    T t = make(2);
    T u = std::move(t);
    VS_ASSERT(!t.get_context() && u.get_context()->id == 0);
    VS_ASSERTM(rec[0].st == 0, "a task not started tells its context nothing");
    if (vs_choice("release", 2)) {
      auto h = u.detach();
      VS_ASSERT(u.empty() && h.address() == rec[0].self);
      if (vs_choice("destroy", 2)) h.destroy();
      else T back(h);
    }
  }
  settled();
}
VS_ENTRY(empty_tasks) {
  task<int> t;
  VS_ASSERTM(!t.start_and_detach() && !t.start_and_detach(true) && !t.detach() && !t.release(), "an empty task gives a null handle");
  VS_ASSERT(t.empty() && t.get_context() == nullptr && !t.raw_handle());
}
// release() + resume: same as detached for a task prepared by detach()
static int plain_runs;
static task<Live> plain(int fail) {
  Live l;
  plain_runs++;
  co_await Park{};
  if (fail) throw Boom{1};
  co_return Live{};
}
VS_ENTRY(detach_resume) {
  int fail = vs_choice("fail", 2);
  auto h = plain(fail).detach();
  VS_ASSERT(plain_runs == 0);
  h.resume();
  VS_ASSERT(plain_runs == 1 && parked);
  drive(true);
  VS_ASSERTM(live == 0, "frees itself at its end, result or exception ignored");
}
// finished on another thread while the starter goes on
static int handed;
static std::coroutine_handle<> hand;
struct Hand {
  static bool await_ready() noexcept { return false; }
  void await_suspend(std::coroutine_handle<> h) noexcept {
    hand = h;
    vsg_signal(&handed);
  }
  static void await_resume() noexcept {}
};
static task<Live> remote(int fail) {
  Live l;
  co_await Hand{};
  if (fail) throw Boom{1};
  co_return Live{};
}
VS_ENTRY(detach_threads) {
  int fail = vs_choice("fail", 2);
  int stop = vs_choice("stop", 2);
  std::thread t([] {
    vsg_await(&handed);
    hand.resume();
  });
  auto h = remote(fail).start_and_detach(stop);
  t.join();
  if (stop) {
    VS_ASSERT(h && h.done());
    VS_ASSERTM(live == (fail ? 0 : 1), "stays finished with its result for the caller");
    h.destroy();
  }
  VS_ASSERT(live == 0);
}
// longer chains of owners, and when_all over more tasks
static T deep(int id, int d) {
  Live l;
  step(id, BODY);
  auto me = co_await this_coro::handle;
  if (fuel && vs_choice("park", 2)) {
    --fuel;
    co_await Park{};
  }
  int sum = 1;
  if (d > 0) {
    int c = new_id();
    T t = deep(c, d - 1);
    t.get_context()->id = c;
    rec[c].self = t.raw_handle().address();
    rec[c].expect_owner = me.address();
    sum += co_await t;
    VS_ASSERTM(rec[c].st == END, "the owner continues after the end");
  }
  step(id, BODYEND);
  co_return sum;
}
static T make_deep(int d) {
  int id = new_id();
  T t = deep(id, d);
  t.get_context()->id = id;
  rec[id].self = t.raw_handle().address();
  return t;
}
VS_ENTRY(ctx_deep) {  // @reach=end
  fuel = 2;
  int d = vs_choice("depth", 9);
  if (vs_choice("detach", 2)) detached(make_deep(d));
  else
    [](int d) -> Co {
      auto me = co_await this_coro::handle;
      T t = make_deep(d);
      rec[0].expect_owner = me.address();
      VS_ASSERT(co_await t == d + 1);
      finished = true;
    }(d);
  drive(false);
  settled();
  vs_reach("end");
}
VS_ENTRY(ctx_when_all_many) {  // @reach=end
  fuel = 0;
  [](int n) -> Co {
    auto me = co_await this_coro::handle;
    int ids[8];
    std::vector<T> v;
    for (int i = 0; i < n; ++i) {
      v.push_back(make_deep(i % 3 == 2));
      ids[i] = v.back().get_context()->id;
    }
    {
      auto all = when_all(std::move(v));
      int w = adopt(all, me.address(), ids, n);
      co_await all.wait();
      all_ended(w, ids, n);
    }
    for (int i = 0; i < n; ++i) VS_ASSERT(rec[ids[i]].st == DEAD);
    finished = true;
  }(vs_choice("n", 9));
  VS_ASSERT(finished);
  settled();
  vs_reach("end");
}
