// BOUND: nesting depth <= 3, at most 4 (quick) / 5 (thorough) items over all bodies; every item may throw; suspensions before and after
// BOUND: item kinds: value, throw, nested channel, suspension, partly consumed channel, failing range; consumers by iterator and by next()+take_exception(), continuing or dropping after each exception
// BOUND: fixed shapes: chains of depth 0-5 with up to two failures anywhere; 1-5 nested channels one after another, any of them failing
// @must_compile
#include "seq.h"
#include <kelcoro/channel.hpp>
using namespace dd;
#ifdef VS_THOROUGH
constexpr int FUEL = 5;
#else
constexpr int FUEL = 4;
#endif
using C = channel<int>;
static int pending, pending_tag, throws;
static const void* pending_obj;
struct Err {
  int tag;
  explicit Err(int t) : tag(t) {
    vs_assert(!pending, "an exception is delivered before the body goes on");
    pending = 1;
    pending_tag = t;
    pending_obj = this;
  }
};
[[noreturn]] static void fail(int id) {
  failed_[id] = true;
  throw Err(symv());
}
static void caught(const Err& e) {
  VS_ASSERTM(pending == 1, "each exception is delivered once");
  VS_ASSERTM(e.tag == pending_tag && &e == pending_obj, "the exception delivered is the original object");
  pending = 0;
  ++throws;
  CLEAN();
}
struct ThrowingRange {
  int n, at, id, i = 0;
  struct It {
    ThrowingRange* r;
    using difference_type = ptrdiff_t;
    using value_type = int;
    int operator*() const {
      int v = symv();
      q.push(v);
      return v;
    }
    It& operator++() {
      CLEAN();
      if (++r->i == r->at) fail(r->id);
      return *this;
    }
    void operator++(int) { ++*this; }
    bool operator==(std::default_sentinel_t) const { return r->i == r->n; }
  };
  It begin() { return It{this}; }
  std::default_sentinel_t end() { return {}; }
};
static C body(int id, int depth, int kinds) {
  Live l;
  ++started;
  while (fuel > 0) {
    --fuel;
    int k = vs_choice("item", depth > 1 ? kinds : 4);
    if (k == 0) break;
    if (k == 1) {
      int v = symv();
      q.push(v);
      co_yield int(v);
    } else if (k == 2) {
      Live l2;
      fail(id);
    } else if (k == 3) {
      co_await Park{};
    } else if (k == 4) {
      int c = new_id();
      co_yield elements_of(body(c, depth - 1, kinds));
      VS_ASSERTM(done_[c] != failed_[c], "the nested channel ended or failed");
    } else if (k == 5) {
      int c = new_id();
      C g = body(c, depth - 1, kinds);
      bool thrown = false;
      try {
        auto it = co_await g.begin();
        if (it != g.end()) got(*it);
      } catch (Err& e) {
        caught(e);
        thrown = true;
      }
      VS_ASSERT(!thrown || g.empty() == failed_[c]);
      co_yield elements_of(std::move(g));
      VS_ASSERTM(done_[c] != failed_[c], "the partly consumed channel ended or failed");
    } else {
      int c = new_id();
      int n = 1 + vs_choice("n", 2);
      co_yield elements_of(ThrowingRange{n, 1 + vs_choice("at", n + 1), c});
    }
    VS_ASSERTM(pending == 0, "the exception was delivered before the enclosing body went on");
    CLEAN();
  }
  done_[id] = true;
}
static bool finished;
static Co by_iter(C& c, int id) {
  try {
    auto it = co_await c.begin();
    while (it != c.end()) {
      VS_ASSERTM(!pending, "no value overtakes an exception");
      got(*it);
      co_await ++it;
    }
    VS_ASSERT(pending || done_[id]);
  } catch (Err& e) {
    caught(e);
    VS_ASSERTM(c.empty() == failed_[id], "only an exception of the outermost body ends the channel");
    if (!c.empty()) vs_reach("continued");
  }
  VS_ASSERTM(!pending, "the exception is thrown when the iteration ends");
  VS_ASSERT(!c.take_exception());
  finished = true;
}
static Co by_next(C& c, int id) {
  while (int* p = co_await c.next()) {
    VS_ASSERT(!pending);
    got(*p);
  }
  if (std::exception_ptr e = c.take_exception()) {
    VS_ASSERTM(pending, "take_exception() reports each exception once");
    try {
      std::rethrow_exception(std::move(e));
    } catch (Err& x) {
      caught(x);
    }
    VS_ASSERT(c.empty() == failed_[id]);
    VS_ASSERT(c.take_exception() == nullptr);
    if (!c.empty()) vs_reach("continued");
  } else
    VS_ASSERTM(!pending && done_[id], "next() is null without an exception only at the end");
  finished = true;
}
static Co check_empty(C& c) {
  auto it = co_await c.begin();
  VS_ASSERT(it == c.end() && co_await c.next() == nullptr && !c.take_exception());
  finished = true;
}
static void consume(C& c, int id, bool drop, bool threads) {
  while (!c.empty()) {
    finished = false;
    if (vs_choice("how", 2)) by_next(c, id);
    else by_iter(c, id);
    drive(threads);
    VS_ASSERTM(finished, "the consumer is resumed for every value, exception and the end");
    if (drop && vs_choice("drop", 2)) break;
  }
  if (!drop || c.empty()) {
    VS_ASSERT(done_[id] != failed_[id] && live == 0);
    finished = false;
    check_empty(c);
    VS_ASSERT(finished);
  }
  c.clear();
  VS_ASSERTM(live == 0 && !pending, "nothing of the bodies is left");
  if (throws) vs_reach("thrown");
}
VS_ENTRY(cex_flat) {  // @reach=thrown
  fuel = FUEL;
  int id = new_id();
  C c = body(id, 1, 4);
  consume(c, id, false, false);
}
VS_ENTRY(cex_nested) {  // @reach=thrown,continued
  fuel = FUEL;
  int id = new_id();
  C c = body(id, 3, 5);
  consume(c, id, false, false);
}
VS_ENTRY(cex_partly) {  // @reach=thrown,continued
  fuel = FUEL;
  int id = new_id();
  C c = body(id, 3, 6);
  consume(c, id, false, false);
}
VS_ENTRY(cex_range) {  // @reach=thrown,continued
  fuel = FUEL - 1;
  int id = new_id();
  C c = body(id, 2, 7);
  consume(c, id, false, false);
}
VS_ENTRY(cex_drop) {  // @reach=thrown,continued
  fuel = FUEL;
  int id = new_id();
  C c = body(id, 3, 5);
  consume(c, id, true, false);
}
VS_ENTRY(cex_threads) {  // @reach=thrown
  fuel = FUEL - 1;
  int id = new_id();
  C c = body(id, 2, 5);
  consume(c, id, false, true);
}
// the documented reaction to an exception that nobody took before the next one
static Co ignoring(C& c) {
  while (int* p = co_await c.next()) {
  }
  pending = 0;
  vs_expect_terminate();
  while (int* p = co_await c.next()) {
  }
  VS_ASSERTM(false, "a second exception over an untaken one terminates");
}
static C thrower() {
  co_yield elements_of([]() -> C { fail(20); co_return; }());
  fail(21);
}
VS_ENTRY(cex_untaken) {
  C c = thrower();
  ignoring(c);
}
// deeper chains with up to two failures anywhere
static int may_fail;
static C deep(int d, int id) {
  Live l;
  ++started;
  if (may_fail && vs_choice("before", 2)) {
    --may_fail;
    fail(id);
  }
  int v = symv();
  q.push(v);
  co_yield int(v);
  CLEAN();
  if (d % 3 == 1) co_await Park{};
  if (d > 0) {
    int c = new_id();
    co_yield elements_of(deep(d - 1, c));
    VS_ASSERTM(done_[c] != failed_[c] && !pending, "the nested channel ended or failed");
    CLEAN();
  }
  if (d % 3 == 2) co_await Park{};
  if (may_fail && vs_choice("after", 2)) {
    --may_fail;
    fail(id);
  }
  v = symv();
  q.push(v);
  co_yield int(v);
  CLEAN();
  done_[id] = true;
}
VS_ENTRY(cex_deep) {  // @reach=thrown,continued
  may_fail = 2;
  int id = new_id();
  C c = deep(vs_choice("depth", 6), id);
  consume(c, id, false, false);
}
static C child(int id, bool f) {
  Live l;
  int v = symv();
  q.push(v);
  co_yield int(v);
  CLEAN();
  if (f) fail(id);
  done_[id] = true;
}
static C many(int n, int mask, int id) {
  Live l;
  for (int i = 0; i < n; ++i) {
    int c = new_id();
    co_yield elements_of(child(c, mask >> i & 1));
    VS_ASSERT(done_[c] != failed_[c] && !pending);
    CLEAN();
  }
  done_[id] = true;
}
VS_ENTRY(cex_many) {  // @reach=thrown,continued
  int id = new_id(), n = 1 + vs_choice("n", 5);
  C c = many(n, vs_choice("mask", 1 << n), id);
  consume(c, id, false, false);
}
// an element whose copy fails: the producer sees it at the co_yield; uncaught it reaches the consumer like any exception
struct Frail {
  int v;
  Live l;
  static inline bool throws = false;
  Frail(int x) : v(x) {}
  Frail(const Frail& o) : v(o.v) {
    if (throws) throw Boom{o.v};
  }
};
static int frail_tag;
static channel<Frail> frail(bool bad, bool guard, bool nested, bool wait) {
  const Frail a(symv());
  if (nested) {
    Frail::throws = false;
    co_yield elements_of(frail(bad, guard, false, wait));
  }
  if (wait) co_await Park{};
  Frail::throws = bad;
  frail_tag = a.v;
  if (guard) {
    bool threw = false;
    try {
      co_yield a;
    } catch (Boom& b) {
      threw = true;
      VS_ASSERT(b.tag == a.v);
    }
    VS_ASSERTM(threw == bad, "the producer sees that its element could not be copied");
  } else
    co_yield a;
  Frail::throws = false;
  co_yield Frail(5);
}
VS_ENTRY(cex_copy) {  // @reach=thrown,end
  bool bad = vs_choice("bad", 2), guard = vs_choice("guard", 2), nested = vs_choice("nested", 2), wait = vs_choice("wait", 2);
  bool over = false;
  auto use = [&](channel<Frail> c) -> Co {
    int seen = 0, thrown = 0;
    while (!c.empty()) {
      try {
        co_foreach(Frail&& x, c) {
          VS_ASSERT(x.v == (bad || seen % 2 ? 5 : frail_tag));
          ++seen;
        }
      } catch (Boom& b) {
        ++thrown;
        VS_ASSERT(b.tag == frail_tag);
        vs_reach("thrown");
      }
    }
    int levels = 1 + nested;
    VS_ASSERT(thrown == (bad && !guard ? levels : 0));
    VS_ASSERT(seen == (bad ? guard ? levels : 0 : 2 * levels));
    over = true;
  };
  use(frail(bad, guard, nested, wait));
  drive(true);
  VS_ASSERT(over && live == 0);
  vs_reach("end");
}
