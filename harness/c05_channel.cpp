// BOUND: nesting depth <= 3, at most 4 (quick) / 5 (thorough) items over all bodies, element values symbolic 32 bit
// BOUND: item kinds: value, nested channel, suspension resumed by the driver (same or another thread), partly consumed channel, array, vector, generator, empty channel, channel of another element type, channel with another resource
// BOUND: channels of 2-3 levels advanced by 0..5 values, then spliced into one or two enclosing channels, with optional suspensions
// BOUND: consumers by begin()/++ , by next(), several consumer coroutines one after another, stopping at any position
// BOUND: fixed shapes: chains of depth 0-9 with suspensions, one body of up to 44 values
// @must_compile
#include "seq.h"
#include <kelcoro/channel.hpp>
#include <kelcoro/generator.hpp>
using namespace dd;
#ifdef VS_THOROUGH
constexpr int FUEL = 5;
#else
constexpr int FUEL = 4;
#endif
using C = channel<int>;
static generator<int> gen(int id) {
  for (int i = 0; i < 2; ++i) {
    int v = symv();
    q.push(v);
    co_yield int(v);
    CLEAN();
  }
  done_[id] = true;
}
static channel<long> longs(int id) {
  Live l;
  co_await Park{};
  for (int i = 0; i < 2; ++i) {
    int v = symv();
    q.push(v);
    co_yield long(v);
    CLEAN();
  }
  done_[id] = true;
}
struct res {
  void* allocate(size_t n) { return ::operator new(n); }
  void deallocate(void* p, size_t n) noexcept { ::operator delete(p); }
};
static channel_r<int, res> rbody(int id) {
  Live l;
  int v = symv();
  q.push(v);
  co_yield int(v);
  CLEAN();
  const int w = symv();
  q.push(w);
  co_yield w;
  CLEAN();
  done_[id] = true;
}
static C body(int id, int depth, int kinds) {
  Live l;
  ++started;
  while (fuel > 0) {
    --fuel;
    int k = vs_choice("item", depth > 1 ? kinds : 3);
    if (k == 0) break;
    if (k == 1) {
      int v = symv();
      q.push(v);
      co_yield int(v);
    } else if (k == 2) {
      co_await Park{};
    } else if (k == 3) {
      int c = new_id();
      co_yield elements_of(body(c, depth - 1, kinds));
      VS_ASSERTM(done_[c], "the nested channel ran to its end");
    } else if (k == 4) {
      int c = new_id();
      C g = body(c, depth - 1, kinds);
      int s = started;
      auto it = co_await g.begin();
      VS_ASSERT(started == s + 1);
      if (it != g.end()) {
        got(*it);
        if (vs_choice("pre", 2)) {
          co_await ++it;
          if (it != g.end()) got(*it);
        }
      }
      co_yield elements_of(std::move(g));
      VS_ASSERTM(done_[c], "the partly consumed channel ran to its end");
    } else {
      switch (vs_choice("range", 6)) {
        case 0: {
          int a[2] = {symv(), symv()};
          q.push(a[0]);
          q.push(a[1]);
          co_yield elements_of(a);
          break;
        }
        case 1: {
          std::vector<int> a;
          a.push_back(symv());
          q.push(a[0]);
          co_yield elements_of(std::move(a));
          break;
        }
        case 2: {
          int c = new_id();
          co_yield elements_of(longs(c));
          VS_ASSERT(done_[c]);
          break;
        }
        case 3: {
          int c = new_id();
          co_yield elements_of(rbody(c));
          VS_ASSERT(done_[c]);
          break;
        }
        case 4: co_yield elements_of(C{}); break;
        case 5: {
          int c = new_id();
          co_yield elements_of(gen(c));
          VS_ASSERT(done_[c]);
          break;
        }
      }
    }
    CLEAN();
  }
  done_[id] = true;
}
static bool finished;
// consumes with an iterator, may stop after any value
static Co by_iter(C& c, int id, int brk) {
  auto it = co_await c.begin();
  bool stopped = false;
  while (it != c.end()) {
    got(*it);
    if (brk && vs_choice("break", 2)) {
      stopped = true;
      break;
    }
    co_await ++it;
  }
  VS_ASSERTM(stopped || (done_[id] && c.empty()), "iteration ends exactly when the body ended");
  VS_ASSERT(!c.take_exception());
  finished = true;
}
static Co by_next(C& c, int id, int brk) {
  bool stopped = false;
  while (int* p = co_await c.next()) {
    got(*p);
    if (brk && vs_choice("break", 2)) {
      stopped = true;
      break;
    }
  }
  VS_ASSERTM(stopped || (done_[id] && c.empty()), "next() is null exactly when the body ended");
  finished = true;
}
static Co by_foreach(C& c, int id) {
  co_foreach(int x, c) got(x);
  VS_ASSERT(done_[id] && c.empty());
  finished = true;
}
static Co check_empty(C& c) {
  int s = started;
  auto it = co_await c.begin();
  VS_ASSERTM(it == c.end(), "an exhausted channel iterates nothing");
  VS_ASSERT(co_await c.next() == nullptr);
  VS_ASSERT(started == s);
  finished = true;
}
static void consume(C& c, int id, int brk, bool threads) {
  VS_ASSERTM(started == 0, "nothing runs before the channel is awaited");
  while (!c.empty()) {
    finished = false;
    switch (vs_choice("how", brk >= 0 ? 2 : 3)) {
      case 0: by_iter(c, id, brk > 0); break;
      case 1: by_next(c, id, brk > 0); break;
      case 2: by_foreach(c, id); break;
    }
    if (brk > 0) --brk;
    drive(threads);
    VS_ASSERTM(finished, "the consumer is resumed for every value and the end");
  }
  VS_ASSERT(done_[id] && live == 0);
  CLEAN();
  finished = false;
  check_empty(c);
  VS_ASSERT(finished);
  vs_reach("end");
}
VS_ENTRY(chan_flat) {  // @reach=end
  fuel = FUEL;
  int id = new_id();
  C c = body(id, 1, 3);
  consume(c, id, 3, false);
}
VS_ENTRY(chan_nested) {  // @reach=end
  fuel = FUEL;
  int id = new_id();
  C c = body(id, 3, 4);
  consume(c, id, 1, false);
}
VS_ENTRY(chan_foreach) {  // @reach=end
  fuel = FUEL - 1;
  int id = new_id();
  C c = body(id, 3, 4);
  consume(c, id, -1, false);
}
VS_ENTRY(chan_partly) {  // @reach=end
  fuel = FUEL;
  int id = new_id();
  C c = body(id, 2, 5);
  consume(c, id, 0, false);
}
// a channel of two or three levels, advanced by 0..5 values, then spliced into another one
static C level(int id, int depth, int before, int inner, int after) {
  Live l;
  for (int i = 0; i < before; ++i) {
    int v = symv();
    q.push(v);
    co_yield int(v);
    CLEAN();
  }
  if (depth > 0) {
    int c = new_id();
    co_yield elements_of(level(c, depth - 1, inner, inner, 1));
    VS_ASSERT(done_[c]);
    CLEAN();
  }
  for (int i = 0; i < after; ++i) {
    if (vs_choice("park", 2)) co_await Park{};
    int v = symv();
    q.push(v);
    co_yield int(v);
    CLEAN();
  }
  done_[id] = true;
}
static C splice(int id, C g, int gid, int levels) {
  Live l;
  if (vs_choice("first", 2)) {
    int v = symv();
    q.push(v);
    co_yield int(v);
    CLEAN();
  }
  if (levels > 0) {
    int c = new_id();
    co_yield elements_of(splice(c, std::move(g), gid, levels - 1));
    VS_ASSERT(done_[c]);
  } else {
    co_yield elements_of(std::move(g));
    VS_ASSERTM(done_[gid], "the spliced channel ran to its end");
  }
  CLEAN();
  int v = symv();
  q.push(v);
  co_yield int(v);
  CLEAN();
  done_[id] = true;
}
static Co spliced_run(int depth, int levels) {
  int gid = new_id();
  C g = level(gid, depth, vs_choice("before", 2), 1 + vs_choice("inner", 2), vs_choice("after", 2) + 1);
  int k = vs_choice("k", 6);
  for (int i = 0; i < k; ++i) {
    int* p = co_await g.next();
    if (!p) break;
    got(*p);
  }
  if (!g.empty()) CLEAN();
  int id = new_id();
  C o = splice(id, std::move(g), gid, levels);
  co_foreach(int x, o) got(x);
  VS_ASSERT(done_[id] && o.empty());
  CLEAN();
  finished = true;
}
VS_ENTRY(chan_partly_nested) {  // @reach=end
  spliced_run(1 + vs_choice("depth", 2), vs_choice("levels", 2));
  drive(false);
  VS_ASSERTM(finished && live == 0, "the consumer is resumed for every value and the end");
  vs_reach("end");
}
VS_ENTRY(chan_ranges) {  // @reach=end
  fuel = FUEL - 2;
  int id = new_id();
  C c = body(id, 2, 6);
  consume(c, id, 0, false);
}
VS_ENTRY(chan_threads) {  // @reach=end
  fuel = FUEL - 1;
  int id = new_id();
  C c = body(id, 2, 4);
  consume(c, id, 0, true);
}
VS_ENTRY(chan_drop) {  // @reach=dropped
  fuel = FUEL;
  int id = new_id();
  {
    C c = body(id, 3, 4);
    if (vs_choice("start", 2)) {
      by_iter(c, id, 1);
      drive(false);
    }
  }
  VS_ASSERTM(live == 0, "all bodies' objects are destroyed with the channel");
  vs_reach("dropped");
}
VS_ENTRY(chan_empty) {
  C c;
  VS_ASSERT(c.empty() && !c);
  check_empty(c);
  VS_ASSERT(finished);
}
// iterators know their channel
static Co iters(C& a, C& b) {
  auto i = co_await a.begin();
  auto j = co_await b.begin();
  auto k = i;
  got(*i);
  got(*j);
  VS_ASSERTM(i.equivalent(k) && !i.equivalent(j), "equivalent() tells whether iterators belong to the same channel");
  q.h = q.t = 0;
  finished = true;
}
static C ones(int n) {
  for (int i = 0; i < n; ++i) {
    int v = symv();
    q.push(v);
    co_yield int(v);
  }
}
VS_ENTRY(chan_equivalent) {
  C a = ones(2), b = ones(2);
  iters(a, b);
  VS_ASSERT(finished);
}
// deeper and longer than the free programs above, in fewer shapes
static C deep(int d, int id) {
  Live l;
  ++started;
  int v = symv();
  q.push(v);
  co_yield int(v);
  CLEAN();
  if (d % 4 == 1) co_await Park{};
  if (d > 0) {
    int c = new_id();
    co_yield elements_of(deep(d - 1, c));
    VS_ASSERTM(done_[c], "the nested channel ran to its end");
    CLEAN();
  }
  if (d % 4 == 2) co_await Park{};
  v = symv();
  q.push(v);
  co_yield int(v);
  CLEAN();
  done_[id] = true;
}
VS_ENTRY(chan_deep) {  // @reach=end
  int id = new_id();
  C c = deep(vs_choice("depth", 10), id);
  consume(c, id, 1, false);
}
static C wide(int n, int id) {
  Live l;
  ++started;
  for (int i = 0; i < n; ++i) {
    int v = symv();
    q.push(v);
    if (i % 5 == 3) co_await Park{};
    co_yield int(v);
    CLEAN();
  }
  int a[12];
  for (int& x : a) q.push(x = symv());
  co_yield elements_of(a);
  CLEAN();
  for (int i = 0; i < n; ++i) {
    int c = new_id();
    co_yield elements_of(deep(0, c));
    VS_ASSERT(done_[c]);
  }
  done_[id] = true;
}
VS_ENTRY(chan_wide) {  // @reach=end
  int id = new_id();
  C c = wide(vs_choice("n", 3) * 8, id);
  consume(c, id, 1, false);
}
