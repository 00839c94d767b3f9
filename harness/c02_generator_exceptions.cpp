// BOUND: nesting depth <= 3, at most 4 (quick) / 5 (thorough) items over all bodies; every item may throw; up to that many throws
// BOUND: item kinds: value, nested generator, throw, partly consumed generator, range throwing while advancing; element and exception values symbolic
// BOUND: the consumer continues after every exception, or drops the generator
// BOUND: fixed shapes: chains of depth 0-7 with up to two failures anywhere; 1-7 nested generators one after another, any of them failing
// @must_compile
#include "seq.h"
#include <kelcoro/generator.hpp>
using namespace dd;
#ifdef VS_THOROUGH
constexpr int FUEL = 5;
#else
constexpr int FUEL = 4;
#endif
using G = generator<int>;
static int pending;              // an exception is on its way
static int pending_tag;
static const void* pending_obj;
struct Err {
  int tag;
  explicit Err(int t) : tag(t) {
    pending = 1;
    pending_tag = t;
    pending_obj = this;
  }
};
[[noreturn]] static void fail(int id) {
  failed_[id] = true;
  throw Err(symv());
}
static void caught(const Err& e) {
  VS_ASSERTM(pending == 1, "each exception is delivered once");
  VS_ASSERTM(e.tag == pending_tag && &e == pending_obj, "the exception delivered is the original object");
  pending = 0;
  CLEAN();
}
struct ThrowingRange {
  int n, at, id, i = 0;
  struct It {
    ThrowingRange* r;
    using difference_type = ptrdiff_t;
    using value_type = int;
    int operator*() const {
      int v = symv();
      q.push(v);
      return v;
    }
    It& operator++() {
      CLEAN();
      if (++r->i == r->at) fail(r->id);
      return *this;
    }
    void operator++(int) { ++*this; }
    bool operator==(std::default_sentinel_t) const { return r->i == r->n; }
  };
  It begin() { return It{this}; }
  std::default_sentinel_t end() { return {}; }
};
static G body(int id, int depth, int kinds) {
  Live l;
  ++started;
  while (fuel > 0) {
    --fuel;
    int k = vs_choice("item", depth > 1 ? kinds : 3);
    if (k == 0) break;
    if (k == 1) {
      int v = symv();
      q.push(v);
      co_yield int(v);
    } else if (k == 2) {
      Live l2;
      fail(id);
    } else if (k == 3) {
      int c = new_id();
      co_yield elements_of(body(c, depth - 1, kinds));
      VS_ASSERTM(done_[c] != failed_[c], "the nested generator ended or failed");
    } else if (k == 4) {
      int c = new_id();
      G g = body(c, depth - 1, kinds);
      bool thrown = false;
      try {
        auto it = g.begin();
        if (it != g.end()) got(*it);
      } catch (Err& e) {
        caught(e);
        thrown = true;
      }
      VS_ASSERT(thrown == failed_[c] || !g.empty());
      co_yield elements_of(std::move(g));
      VS_ASSERTM(done_[c] != failed_[c], "the partly consumed generator ended or failed");
    } else {
      int c = new_id();
      int n = 1 + vs_choice("n", 2);
      co_yield elements_of(ThrowingRange{n, 1 + vs_choice("at", n + 1), c});
    }
    VS_ASSERTM(pending == 0, "the exception was delivered before the enclosing body went on");
    CLEAN();
  }
  done_[id] = true;
}
static void consume(G& g, int id, bool drop) {
  int throws = 0;
  while (!g.empty()) {
    try {
      for (auto it = g.begin(); it != g.end(); ++it) {
        VS_ASSERTM(!pending, "no value overtakes an exception");
        got(*it);
      }
      VS_ASSERTM(!pending && done_[id] && g.empty(), "iteration ends only when the outermost body ended");
    } catch (Err& e) {
      caught(e);
      ++throws;
      VS_ASSERTM(g.empty() == failed_[id], "only an exception of the outermost body ends the generator");
      VS_ASSERTM(g.cur_iterator() == g.end(), "there is no current value after an exception");
      if (g.empty()) VS_ASSERTM(g.begin() == g.end(), "a failed generator iterates nothing");
      else vs_reach("continued");
      if (drop && vs_choice("drop", 2)) break;
    }
  }
  if (!drop || g.empty()) {
    VS_ASSERT(done_[id] != failed_[id] && live == 0 && g.empty());
    VS_ASSERT(g.begin() == g.end());
  }
  g.clear();
  VS_ASSERTM(live == 0 && !pending, "nothing of the bodies is left");
  if (throws) vs_reach("thrown");
}
VS_ENTRY(gex_flat) {  // @reach=thrown
  fuel = FUEL;
  int id = new_id();
  G g = body(id, 1, 3);
  consume(g, id, false);
}
VS_ENTRY(gex_nested) {  // @reach=thrown,continued
  fuel = FUEL;
  int id = new_id();
  G g = body(id, 3, 4);
  consume(g, id, false);
}
VS_ENTRY(gex_partly) {  // @reach=thrown,continued
  fuel = FUEL;
  int id = new_id();
  G g = body(id, 3, 5);
  consume(g, id, false);
}
VS_ENTRY(gex_range) {  // @reach=thrown,continued
  fuel = FUEL - 1;
  int id = new_id();
  G g = body(id, 3, 6);
  consume(g, id, false);
}
VS_ENTRY(gex_drop) {  // @reach=thrown,continued
  fuel = FUEL;
  int id = new_id();
  G g = body(id, 3, 4);
  consume(g, id, true);
}
static generator<nothing_t> events(int depth, int id) {
  Live l;
  while (fuel-- > 0) {
    int k = vs_choice("k", depth ? 4 : 3);
    if (k == 0) break;
    if (k == 1) {
      q.push(1);
      co_yield {};
      CLEAN();
    } else if (k == 2) fail(id);
    else {
      int c = new_id();
      co_yield elements_of(events(depth - 1, c));
      VS_ASSERT(!pending && done_[c] != failed_[c]);
    }
  }
  done_[id] = true;
}
VS_ENTRY(gex_nothing) {  // @reach=thrown
  fuel = FUEL;
  int id = new_id();
  auto g = events(2, id);
  while (!g.empty()) {
    try {
      for (auto it = g.begin(); it != g.end(); ++it) got(1);
      VS_ASSERT(done_[id]);
    } catch (Err& e) {
      caught(e);
      vs_reach("thrown");
      VS_ASSERT(g.empty() == failed_[id]);
    }
  }
  VS_ASSERT(live == 0 && done_[id] != failed_[id]);
}
// deeper chains with up to two failures anywhere
static int may_fail;
static G deep(int d, int id) {
  Live l;
  ++started;
  if (may_fail && vs_choice("before", 2)) {
    --may_fail;
    fail(id);
  }
  int v = symv();
  q.push(v);
  co_yield int(v);
  CLEAN();
  if (d > 0) {
    int c = new_id();
    co_yield elements_of(deep(d - 1, c));
    VS_ASSERTM(done_[c] != failed_[c] && !pending, "the nested generator ended or failed");
    CLEAN();
  }
  if (may_fail && vs_choice("after", 2)) {
    --may_fail;
    fail(id);
  }
  v = symv();
  q.push(v);
  co_yield int(v);
  CLEAN();
  done_[id] = true;
}
VS_ENTRY(gex_deep) {  // @reach=thrown,continued
  may_fail = 2;
  int id = new_id();
  G g = deep(vs_choice("depth", 8), id);
  consume(g, id, false);
}
// many failures one after another in one body's children
static G child(int id, bool f) {
  Live l;
  int v = symv();
  q.push(v);
  co_yield int(v);
  CLEAN();
  if (f) fail(id);
  done_[id] = true;
}
static G many(int n, int mask, int id) {
  Live l;
  for (int i = 0; i < n; ++i) {
    int c = new_id();
    co_yield elements_of(child(c, mask >> i & 1));
    VS_ASSERT(done_[c] != failed_[c] && !pending);
    CLEAN();
  }
  done_[id] = true;
}
VS_ENTRY(gex_many) {  // @reach=thrown,continued
  int id = new_id(), n = 1 + vs_choice("n", 7);
  G g = many(n, vs_choice("mask", 1 << n), id);
  consume(g, id, false);
}
// an element whose copy fails: the producer sees it at the co_yield; uncaught it reaches the consumer like any exception
struct Frail {
  int v;
  Live l;
  static inline bool throws = false;
  Frail(int x) : v(x) {}
  Frail(const Frail& o) : v(o.v) {
    if (throws) throw Boom{o.v};
  }
};
static generator<Frail> frail(bool bad, bool guard, bool nested) {
  const Frail a(symv());
  if (nested) {
    Frail::throws = false;
    co_yield elements_of(frail(bad, guard, false));
  }
  Frail::throws = bad;
  pending_tag = a.v;
  if (guard) {
    bool threw = false;
    try {
      co_yield a;
    } catch (Boom& b) {
      threw = true;
      VS_ASSERT(b.tag == a.v);
    }
    VS_ASSERTM(threw == bad, "the producer sees that its element could not be copied");
  } else
    co_yield a;
  Frail::throws = false;
  co_yield Frail(5);
}
VS_ENTRY(gex_copy) {  // @reach=thrown,end
  bool bad = vs_choice("bad", 2), guard = vs_choice("guard", 2), nested = vs_choice("nested", 2);
  {
    auto g = frail(bad, guard, nested);
    int seen = 0, thrown = 0;
    while (!g.empty()) {
      try {
        for (auto&& x : g) {
          VS_ASSERT(x.v == (bad || seen % 2 ? 5 : pending_tag));
          ++seen;
        }
      } catch (Boom& b) {
        ++thrown;
        VS_ASSERT(b.tag == pending_tag);
        vs_reach("thrown");
      }
    }
    int levels = 1 + nested;
    VS_ASSERT(thrown == (bad && !guard ? levels : 0));
    VS_ASSERT(seen == (bad ? guard ? levels : 0 : 2 * levels));
  }
  VS_ASSERT(live == 0);
  vs_reach("end");
}
// writing through the output iterator: *it++ = x resumes the producer, whose exception reaches the writer
static int sunk;
static generator<int> failing_sink(int at, int n) {
  Live l;
  int x = -1;
  for (int i = 0; i < n; ++i) {
    if (i == at) fail(0);
    co_yield std::move(x);
    q.push(x);
    sunk++;
  }
  done_[0] = true;
}
VS_ENTRY(gex_output) {  // @reach=thrown,end
  int id = new_id(), n = 1 + vs_choice("n", 3), at = 1 + vs_choice("at", 4), how = vs_choice("how", 3);
  {
    auto g = failing_sink(at, n);
    auto o = g.begin().out();
    bool thrown = false;
    int wrote = 0, v = 0;
    try {
      while (!g.empty()) {
        v = symv();
        if (how == 0) *o++ = v;
        else if (how == 1) *o = v, ++o;
        else *o = v, o++;
        ++wrote;
        VS_ASSERTM(!pending, "an exception of the producer does not get lost");
        got(v);
      }
    } catch (Err& e) {
      thrown = true;
      got(v);
      caught(e);
      vs_reach("thrown");
    }
    VS_ASSERT(thrown == (at < n) && g.empty());
    VS_ASSERT(wrote == (at < n ? at - 1 : n) && sunk == (at < n ? at : n));
  }
  VS_ASSERT(live == 0);
  vs_reach("end");
}
