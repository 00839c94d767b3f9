// BOUND: three generator objects over two bodies (one flat, one nested), every history of 4 (quick) / 5 (thorough) operations out of
// BOUND: advance, swap, move-assign, move-construct, self-move, clear, release+reset, assign empty, nest into a new generator, drop
// BOUND: bodies of 3 values each, values symbolic; chains of depth 0-6 with up to two operations anywhere
// @must_compile
#include "seq.h"
#include <kelcoro/generator.hpp>
using namespace dd;
#ifdef VS_THOROUGH
constexpr int STEPS = 5;
#else
constexpr int STEPS = 4;
#endif
using G = generator<int>;
static int cnt[4], last[4];
static bool began[4], ended[4];
static G leaf(int id) {
  Live l;
  for (int i = 0; i < 2; ++i) {
    last[id] = symv();
    ++cnt[id];
    co_yield int(last[id]);
  }
}
static G flat(int id) {
  Live l;
  began[id] = true;
  for (int i = 0; i < 2; ++i) {
    last[id] = symv();
    ++cnt[id];
    co_yield int(last[id]);
  }
  ended[id] = true;
}
static G nested(int id) {
  Live l;
  began[id] = true;
  co_yield elements_of(leaf(id));
  last[id] = symv();
  ++cnt[id];
  co_yield int(last[id]);
  ended[id] = true;
}
static void* H[2];      // coroutine addresses
static int ident(G& g) {
  void* h = g.raw_handle().address();
  if (!h) return -1;
  if (h == H[0]) return 0;
  VS_ASSERTM(h == H[1], "the object holds one of the coroutines");
  return 1;
}
static void current(G& g) {  // the iterator of the object shows the current value of its coroutine
  int i = ident(g);
  if (i < 0 || !began[i]) return;
  if (ended[i]) VS_ASSERT(g.cur_iterator() == g.end() && g.empty());
  else VS_ASSERTM(g.cur_iterator() != g.end() && *g.cur_iterator() == last[i], "iterators of the object show its coroutine's current value");
}
static void advance(G& g) {
  int i = ident(g);
  if (i < 0) {
    VS_ASSERTM(g.empty() && g.begin() == g.end(), "an empty generator iterates nothing");
    return;
  }
  int n = cnt[i], o = cnt[1 - i];
  bool was = ended[i];
  auto it = g.begin();
  VS_ASSERTM(cnt[1 - i] == o, "only the advanced generator runs");
  if (ended[i]) VS_ASSERTM(it == g.end() && cnt[i] == n, "the end is reported exactly when the body ended");
  else {
    VS_ASSERTM(it != g.end() && cnt[i] == n + 1 && *it == last[i], "advancing delivers exactly the next value");
    vs_reach("value");
  }
  if (was) VS_ASSERT(ended[i]);
}
static void equal(G& a, G& b) {  // a coroutine has one owner: different objects are equal only when both are empty
  VS_ASSERTM(a == a && (a == b) == (a.empty() && b.empty()) && (a == b) == (b == a), "equal iff the same object or both empty");
}
static void step(G& a, G& b, G& c) {
  int ia = ident(a), ib = ident(b), ic = ident(c);
  switch (vs_choice("op", 11)) {
    case 0: advance(a); break;
    case 1: advance(b); break;
    case 2:
      swap(a, b);
      VS_ASSERT(ident(a) == ib && ident(b) == ia);
      break;
    case 3:
      a = std::move(b);
      VS_ASSERT(ident(a) == ib && (ident(b) == -1 || ident(b) == ia));
      break;
    case 4: {
      G t(std::move(a));
      VS_ASSERTM(a.empty() && a.begin() == a.end() && ident(t) == ia, "moving takes the coroutine over");
      current(t);
      advance(t);
      if (vs_choice("keep", 2)) a = std::move(t);
      break;
    }
    case 5:
      a.clear();
      VS_ASSERTM(a.empty() && a.begin() == a.end(), "cleared generators iterate nothing");
      VS_ASSERT(ident(a) == -1);
      break;
    case 6: {
      auto h = a.release();
      VS_ASSERTM(a.empty() && a.begin() == a.end(), "released generators iterate nothing");
      c.reset(h);
      VS_ASSERT(ident(c) == ia && ident(a) == -1);
      advance(c);
      break;
    }
    case 7:
      b.swap(c);
      VS_ASSERT(ident(b) == ic && ident(c) == ib);
      break;
    case 8: {
      G& r = a;
      a = std::move(r);
      a.swap(r);
      VS_ASSERT(ident(a) == ia);
      break;
    }
    case 9:
      c = G{};
      VS_ASSERT(c.empty());
      break;
    case 10: advance(c); break;
  }
  current(a);
  current(b);
  current(c);
  equal(a, b);
  equal(b, c);
  equal(c, a);
}
VS_ENTRY(gobj_history) {  // @reach=value,end
  {
    G a = flat(0), b = nested(1), c;
    H[0] = a.raw_handle().address();
    H[1] = b.raw_handle().address();
    for (int i = 0; i < STEPS; ++i) step(a, b, c);
    // whatever is left goes on to its end, unless it is dropped
    if (vs_choice("finish", 2)) {
      for (G* g : {&a, &b, &c}) {
        int i = ident(*g);
        while (!g->empty()) advance(*g);
        if (i >= 0) VS_ASSERT(ended[i] && cnt[i] == (i ? 3 : 2));
      }
    }
  }
  VS_ASSERTM(live == 0, "every body is destroyed");
  vs_reach("end");
}
// started before a move, nested after it; the outer generator object itself is moved while the inner one runs
static G wrap(G inner, int id) {
  Live l;
  co_yield elements_of(std::move(inner));
  ended[id] = true;
}
VS_ENTRY(gobj_nest_moved) {  // @reach=end
  {
    G a = nested(0);
    int pre = vs_choice("pre", 4);
    for (int i = 0; i < pre; ++i) {
      auto it = a.begin();
      VS_ASSERT(it != a.end() && *it == last[0] && cnt[0] == i + 1);
    }
    G b(std::move(a));
    G w = wrap(std::move(b), 2);
    VS_ASSERT(b.empty() && b.begin() == b.end() && a.begin() == a.end());
    G* cur = &w;
    G other;
    for (int i = pre; i < 3; ++i) {
      if (vs_choice("move", 2)) {
        other = G{};
        std::swap(*cur, other);
        cur->swap(other);
        G t(std::move(*cur));
        *cur = std::move(t);
      }
      auto it = cur->begin();
      VS_ASSERTM(it != cur->end() && *it == last[0] && cnt[0] == i + 1, "the nested generator continues with its next value");
      if (vs_choice("drop", 3) == 2) {
        cur->clear();
        VS_ASSERT(live == 0);
        break;
      }
    }
    if (!cur->empty()) {
      auto it = cur->begin();
      VS_ASSERT(it == cur->end() && ended[0] && ended[2]);
    }
  }
  VS_ASSERT(live == 0);
  vs_reach("end");
}
// an iterator keeps working while its generator object is swapped with another one
VS_ENTRY(gobj_iterators) {  // @reach=end
  G a = flat(0), b = flat(1);
  H[0] = a.raw_handle().address();
  H[1] = b.raw_handle().address();
  auto ia = a.begin();
  auto ib = b.begin();
  VS_ASSERT(&ia.owner() == &a && ia.equivalent(a.cur_iterator()) && !ia.equivalent(ib));
  for (int i = 0; i < 2; ++i) {
    if (vs_choice("swap", 2)) a.swap(b);
    auto& it = vs_choice("which", 2) ? ia : ib;
    G& g = it.owner();
    int k = ident(g), n = cnt[k];
    if (ended[k]) continue;
    VS_ASSERT(*it == last[k] && *it.operator->() == last[k]);
    if (i == 0) it++;
    else ++it;
    VS_ASSERT(ended[k] ? it == g.end() : *it == last[k] && cnt[k] == n + 1);
  }
  vs_reach("end");
}
// a longer chain of nested generators: up to two operations on the outer object anywhere in the iteration
static int total;
static G chain(int d) {
  Live l;
  last[0] = symv();
  ++cnt[0];
  co_yield int(last[0]);
  if (d > 0) {
    co_yield elements_of(chain(d - 1));
    last[0] = symv();
    ++cnt[0];
    co_yield int(last[0]);
  }
}
static bool next_of(G& g) {   // false: at the end
  int n = cnt[0];
  auto it = g.begin();
  if (n == total) {
    VS_ASSERTM(it == g.end() && g.empty() && cnt[0] == n, "the end comes after the last value");
    return false;
  }
  VS_ASSERTM(it != g.end() && cnt[0] == n + 1 && *it == last[0], "the next value of the innermost running generator");
  return true;
}
VS_ENTRY(gobj_chain) {  // @reach=end,all
  {
    int d = vs_choice("depth", 7), ops = 2;
    G a = chain(d), b;
    G* g = &a;
    total = 2 * d + 1;
    while (next_of(*g)) {
      if (!ops || !vs_choice("change", 2)) continue;
      --ops;
      G* o = g == &a ? &b : &a;
      switch (vs_choice("op", 6)) {
        case 0: swap(a, b); g = o; break;
        case 1: *o = std::move(*g); g = o; break;
        case 2: o->reset(g->release()); g = o; break;
        case 3: {
          G t(std::move(*g));
          next_of(t);
          *g = std::move(t);
          break;
        }
        case 4:
          g->clear();
          VS_ASSERTM(live == 0, "clear() destroys the whole chain");
          total = cnt[0];
          break;
        case 5:
          *g = chain(1);
          cnt[0] = 0;
          total = 3;
          break;
      }
    }
    if (cnt[0] == total) vs_reach("all");
  }
  VS_ASSERTM(live == 0, "every body is destroyed");
  vs_reach("end");
}
