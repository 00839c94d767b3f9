// BOUND: chains of tasks up to depth 3, at most 4 (quick) / 5 (thorough) items over all bodies, values symbolic 32 bit
// BOUND: items: suspension resumed by the driver (same thread or another one), child task awaited by co_await / wait()+get() / wait()+co_await / wait() only / moved first / dropped unstarted, return, throw; results int, void, non-trivial object
// BOUND: fixed shapes: chains of depth 0-9 with up to two suspensions and one failure anywhere; up to 6 chains one after another
// BOUND: get() from non-coroutine code with the body finishing on one other thread, every interleaving
// @must_compile
#include "seq.h"
#include <kelcoro/task.hpp>
using namespace dd;
#ifdef VS_THOROUGH
constexpr int FUEL = 5;
#else
constexpr int FUEL = 4;
#endif
struct Out {        // how a body ended
  int runs, ended, failed, value;
};
static Out out[16];
struct Obj {        // non trivial result
  Live l;
  int v;
  explicit Obj(int v) : v(v) {}
  Obj(Obj&& o) : v(o.v) { o.v = 0; }
};
template <class R> static int value_of(R& r) {
  if constexpr (std::is_same_v<R, Obj>) return r.v;
  else return r;
}
template <class T> static T finish_value(int v) { return T(v); }
template <class R> static task<R> body(int id, int depth);
// records what the awaiter of task 'c' saw
static void saw(int c, bool threw, int v) {
  VS_ASSERTM(out[c].runs == 1 && out[c].ended, "the awaiter continues after the task ran once and ended");
  VS_ASSERTM(out[c].failed == (int)threw, "an exception reaches the awaiter exactly if the body threw");
  VS_ASSERTM(out[c].value == v, "the awaiter receives the returned value / thrown exception");
}
template <class R> static task<void> child(int depth) {
  int c = new_id();
  task<R> t = body<R>(c, depth);
  VS_ASSERTM(out[c].runs == 0, "a task does not start until awaited");
  int how = vs_choice("how", 6);
  if (how == 0) co_return;                        // dropped before start
  task<R> u;
  VS_ASSERT(u.empty() && !u);
  task<R>* p = &t;
  if (how == 1) {
    u = std::move(t);
    VS_ASSERT(t.empty() && !u.empty());
    p = &u;
  }
  bool threw = false;
  int v = 0;
  if (how >= 3) {
    co_await p->wait();
    VS_ASSERTM(out[c].ended, "wait() continues after the end");
    VS_ASSERT(p->raw_handle().done());
  }
  if (how == 5) co_return;                        // outcome never read
  try {
    if (how == 4) {
      if constexpr (std::is_void_v<R>) p->get();
      else {
        R r = p->get();
        v = value_of(r);
      }
    } else {
      if constexpr (std::is_void_v<R>) co_await *p;
      else {
        R&& r = co_await *p;
        v = value_of(r);
      }
    }
  } catch (Boom& b) {
    threw = true;
    v = b.tag;
  }
  if constexpr (std::is_void_v<R>) {
    if (!threw) v = out[c].value;
  }
  saw(c, threw, v);
  if (how != 2) co_return;
  // direct co_await of a temporary
  int d = new_id();
  try {
    if constexpr (std::is_void_v<R>) {
      co_await body<R>(d, 0);
      v = out[d].value;
    } else {
      R r = co_await body<R>(d, 0);
      v = value_of(r);
    }
    threw = false;
  } catch (Boom& b) {
    threw = true;
    v = b.tag;
  }
  saw(d, threw, v);
}
template <class R> static task<R> body(int id, int depth) {
  Live l;
  out[id].runs++;
  while (fuel > 0) {
    --fuel;
    int k = vs_choice("item", depth > 1 ? 5 : 3);
    if (k == 0) break;
    if (k == 1) co_await Park{};
    if (k == 2) {
      int e = symv();
      out[id].ended = out[id].failed = 1;
      out[id].value = e;
      throw Boom{e};
    }
    if (k == 3) co_await child<int>(depth - 1);
    if (k == 4) {
      if (vs_choice("type", 2)) co_await child<void>(depth - 1);
      else co_await child<Obj>(depth - 1);
    }
  }
  int v = symv();
  out[id].ended = 1;
  out[id].value = v;
  if constexpr (!std::is_void_v<R>) co_return R(v);
}
static int resumed;
template <class R> static Co root(int id, int depth) {
  {
    task<R> t = body<R>(id, depth);
    VS_ASSERT(out[id].runs == 0);
    bool threw = false;
    int v = 0;
    try {
      if constexpr (std::is_void_v<R>) {
        co_await t;
        v = out[id].value;
      } else {
        R r = co_await std::move(t);
        v = value_of(r);
      }
    } catch (Boom& b) {
      threw = true;
      v = b.tag;
    }
    saw(id, threw, v);
  }
  ++resumed;
}
static void run(int type, int depth, bool threads) {
  fuel = FUEL;
  int id = new_id();
  if (type == 0) root<int>(id, depth);
  else if (type == 1) root<void>(id, depth);
  else root<Obj>(id, depth);
  drive(threads);
  VS_ASSERTM(resumed == 1, "the awaiting coroutine continues exactly once");
  VS_ASSERTM(live == 0, "every body and result is destroyed");
  vs_reach("end");
}
VS_ENTRY(task_flat) {  // @reach=end
  run(vs_choice("type", 3), 1, true);
}
VS_ENTRY(task_chain) {  // @reach=end
  run(0, 3, false);
}
VS_ENTRY(task_chain_void) {  // @reach=end
  run(1, 2, false);
}
VS_ENTRY(task_chain_threads) {  // @reach=end
  fuel = FUEL - 1;
  run(2, 2, true);
}
// a task abandoned while suspended, unstarted or finished
VS_ENTRY(task_drop) {  // @reach=parked,unstarted
  fuel = FUEL;
  {
    int id = new_id();
    task<int> t = body<int>(id, 2);
    if (vs_choice("start", 2)) {
      auto h = t.start_and_detach(true);
      VS_ASSERT(t.empty());
      VS_ASSERT(out[id].runs == 1);
      if (parked) {
        vs_reach("parked");
        parked = nullptr;
      }
      task<int> owner(h);
    } else {
      task<int> u(std::move(t));
      VS_ASSERT(t.empty() && u.raw_handle());
      if (vs_choice("assign", 2)) t = std::move(u);
      VS_ASSERT(out[id].runs == 0);
      vs_reach("unstarted");
    }
  }
  VS_ASSERT(live == 0);
}
// the outcome may be read more than once: wait() leaves it to be read later
template <class R> static Co rereads(int id) {
  {
    task<R> t = body<R>(id, 1);
    if (vs_choice("wait", 2)) co_await t.wait();
    for (int i = 0; i < 3; ++i) {
      int how = vs_choice("read", out[id].ended ? 3 : 1);
      if (how == 2) {
        co_await t.wait();
        continue;
      }
      bool threw = false;
      int v = 0;
      try {
        if constexpr (std::is_void_v<R>) {
          if (how == 0) co_await t;
          else t.get();
          v = out[id].value;
        } else if (how == 0) {
          R&& r = co_await t;
          v = value_of(r);
        } else if constexpr (std::is_same_v<R, int>) {
          v = t.get();
        }
        else {
          R&& r = t.raw_handle().promise().result_or_rethrow();
          v = value_of(r);
        }
      } catch (Boom& b) {
        threw = true;
        v = b.tag;
      }
      saw(id, threw, v);
    }
  }
  ++resumed;
}
VS_ENTRY(task_reread) {  // @reach=end
  fuel = 2;
  int id = new_id();
  switch (vs_choice("type", 3)) {
    case 0: rereads<int>(id); break;
    case 1: rereads<void>(id); break;
    case 2: rereads<Obj>(id); break;
  }
  drive(false);
  VS_ASSERTM(resumed == 1 && live == 0, "the awaiting coroutine continues exactly once");
  vs_reach("end");
}
// get() from ordinary code
VS_ENTRY(task_get) {  // @reach=value,error
  fuel = FUEL;
  int id = new_id();
  bool threw = false;
  int v = 0;
  {
    // bodies without suspension: everything ends inside get()
    task<int> t = [](int id) -> task<int> {
      Live l;
      out[id].runs++;
      int c = new_id();
      bool th = false;
      int x = 0;
      task<Obj> ch = body<Obj>(c, 0);
      co_await ch.wait();
      try {
        x = ch.get().v;
      } catch (Boom& b) {
        th = true;
        x = b.tag;
      }
      saw(c, th, x);
      out[id].ended = 1;
      out[id].value = x;
      if (th) {
        out[id].failed = 1;
        throw Boom{x};
      }
      co_return x;
    }(id);
    VS_ASSERT(!out[id].runs);
    for (int i = 0; i < FUEL; ++i) fuel = 0;
    fuel = vs_choice("fuel", 2);
    if (fuel) {
      // throwing child
      fuel = 0;
      task<int> f = [](int id) -> task<int> {
        Live l;
        out[id].runs++;
        int e = symv();
        out[id].ended = out[id].failed = 1;
        out[id].value = e;
        throw Boom{e};
        co_return 0;
      }(id);
      t = std::move(f);
    }
    try {
      v = t.get();
    } catch (Boom& b) {
      threw = true;
      v = b.tag;
    }
  }
  saw(id, threw, v);
  vs_reach(threw ? "error" : "value");
  VS_ASSERT(live == 0);
}
// get() while the body is finished by another thread
static int handed;
static std::coroutine_handle<> hand;
struct Hand {
  static bool await_ready() noexcept { return false; }
  void await_suspend(std::coroutine_handle<> h) noexcept {
    hand = h;
    vsg_signal(&handed);
  }
  static void await_resume() noexcept {}
};
static int shared_data;
template <class R> static task<R> remote(int fail) {
  Live l;
  co_await Hand{};
  shared_data = 5;
  if (fail) throw Boom{17};
  if constexpr (!std::is_void_v<R>) co_return R(42);
}
template <class R> static void get_remote() {
  int fail = vs_choice("fail", 2);
  std::thread t([] {
    vsg_await(&handed);
    hand.resume();
  });
  {
    task<R> x = remote<R>(fail);
    try {
      if constexpr (std::is_void_v<R>) x.get();
      else {
        R r = x.get();
        VS_ASSERT(value_of(r) == 42);
      }
      VS_ASSERT(!fail);
    } catch (Boom& b) {
      VS_ASSERT(fail && b.tag == 17);
    }
    VS_ASSERTM(shared_data == 5, "the effects of the body are visible after get()");
  }
  t.join();
  VS_ASSERT(live == 0);
  vs_reach("end");
}
VS_ENTRY(task_get_threads) {  // @reach=end
  get_remote<int>();
}
VS_ENTRY(task_get_threads_void) {  // @reach=end
  get_remote<void>();
}
VS_ENTRY(task_get_threads_obj) {  // @reach=end
  get_remote<Obj>();
}
// longer chains: every level awaits the next one and adds to its value; suspensions and one failure anywhere
static int may_fail, parks;
static task<int> deep(int d, int id) {
  Live l;
  out[id].runs++;
  if (parks && vs_choice("park", 2)) {
    --parks;
    co_await Park{};
  }
  int v = symv();
  if (d > 0) {
    int c = new_id();
    bool threw = false;
    int w = 0;
    try {
      if (d % 2) w = co_await deep(d - 1, c);
      else {
        auto t = deep(d - 1, c);
        co_await t.wait();
        w = t.get();
      }
    } catch (Boom& b) {
      threw = true;
      w = b.tag;
    }
    saw(c, threw, w);
    v ^= w;
  }
  out[id].ended = 1;
  out[id].value = v;
  if (may_fail && vs_choice("fail", 2)) {
    --may_fail;
    out[id].failed = 1;
    throw Boom{v};
  }
  co_return v;
}
static Co deep_root(int d, int n) {
  for (int i = 0; i < n; ++i) {
    int id = new_id();
    bool threw = false;
    int v = 0;
    try {
      v = co_await deep(d, id);
    } catch (Boom& b) {
      threw = true;
      v = b.tag;
    }
    saw(id, threw, v);
  }
  ++resumed;
}
VS_ENTRY(task_deep) {  // @reach=end
  may_fail = 1, parks = 2;
  deep_root(vs_choice("depth", 10), 1);
  drive(false);
  VS_ASSERTM(resumed == 1 && live == 0, "the awaiting coroutine continues exactly once");
  vs_reach("end");
}
VS_ENTRY(task_many) {  // @reach=end
  may_fail = 1, parks = 2;
  deep_root(1, 1 + vs_choice("n", 6));
  drive(false);
  VS_ASSERTM(resumed == 1 && live == 0, "the awaiting coroutine continues exactly once");
  vs_reach("end");
}
