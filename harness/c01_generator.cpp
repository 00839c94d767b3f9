// BOUND: nesting depth <= 3, at most 4 (quick) / 5 (thorough) items over all bodies, element values symbolic 32 bit
// BOUND: item kinds: value, nested generator, empty generator, partly consumed generator, array, vector, std::span, generator of another element type, generator with another resource
// BOUND: consumer stops and calls begin() again at any of its positions (at most 2 times) or drops the generator
// BOUND: fixed shapes: chains of depth 0-11 (some levels partly consumed), binary trees of depth 0-4, one body of up to 100 values, arrays of 20 and vectors of up to 20; one stop at any position
// @must_compile
#include "seq.h"
#include <kelcoro/generator.hpp>
using namespace dd;
#ifdef VS_THOROUGH
constexpr int FUEL = 5;
#else
constexpr int FUEL = 4;
#endif
using G = generator<int>;
static generator<long> longs(int id) {
  Live l;
  int a = symv();
  q.push(a);
  co_yield long(a);
  CLEAN();
  done_[id] = true;
}
struct res {
  void* allocate(size_t n) { return ::operator new(n); }
  void deallocate(void* p, size_t n) noexcept { ::operator delete(p); }
};
static G body(int id, int depth, int kinds);
static generator_r<int, res> rbody(int id) {
  Live l;
  int n = vs_choice("rlen", 2);
  for (int i = 0; i < n; ++i) {
    int v = symv();
    q.push(v);
    co_yield int(v);
    CLEAN();
  }
  done_[id] = true;
}
static G body(int id, int depth, int kinds) {
  Live l;
  ++started;
  while (fuel > 0) {
    --fuel;
    int k = vs_choice("item", depth > 1 ? kinds : 2);
    if (k == 0) break;
    if (k == 1) {
      int v = symv();
      q.push(v);
      co_yield int(v);
      CLEAN();
    } else if (k == 2) {
      int c = new_id();
      co_yield elements_of(body(c, depth - 1, kinds));
      VS_ASSERTM(done_[c], "the nested generator ran to its end");
    } else if (k == 3) {  // partly consumed
      int c = new_id();
      G g = body(c, depth - 1, kinds);
      auto it = g.begin();
      int n = vs_choice("pre", 2);
      if (it != g.end()) {
        got(*it);
        if (n) {
          ++it;
          if (it != g.end()) got(*it);
        }
      }
      if (vs_choice("lv", 2)) co_yield elements_of(g);
      else co_yield elements_of(std::move(g));
      VS_ASSERTM(done_[c], "the partly consumed generator ran to its end");
    } else if (k == 4) {
      switch (vs_choice("range", 6)) {
        case 0: {
          int a[2] = {symv(), symv()};
          q.push(a[0]);
          q.push(a[1]);
          co_yield elements_of(a);
          break;
        }
        case 1: {
          std::vector<int> a;
          a.push_back(symv());
          q.push(a[0]);
          co_yield elements_of(std::move(a));
          break;
        }
        case 2: {
          int c = new_id();
          co_yield elements_of(longs(c));
          VS_ASSERT(done_[c]);
          break;
        }
        case 3: {
          int c = new_id();
          co_yield elements_of(rbody(c));
          VS_ASSERT(done_[c]);
          break;
        }
        case 4: co_yield elements_of(G{}); break;
        case 5: {
          int a[2] = {symv(), symv()};
          q.push(a[0]);
          q.push(a[1]);
          co_yield elements_of(std::span<int>(a));
          break;
        }
      }
    }
    CLEAN();
  }
  done_[id] = true;
}
static void consume(G& g, int id, int brk) {
  VS_ASSERTM(started == 0, "nothing runs before begin()");
  while (!g.empty()) {
    auto it = g.begin();
    while (it != g.end()) {
      got(*it);
      if (brk > 0 && vs_choice("break", 2)) {
        --brk;
        break;
      }
      ++it;
    }
    if (it == g.end()) {
      VS_ASSERTM(done_[id] && g.empty(), "iteration ends exactly when the body ended");
    }
  }
  VS_ASSERT(done_[id] && live == 0);
  CLEAN();
  int s = started;
  VS_ASSERTM(g.begin() == g.end(), "an exhausted generator iterates nothing");
  VS_ASSERTM(g.empty() && !g && started == s, "an exhausted generator stays empty");
  vs_reach("end");
}
VS_ENTRY(gen_flat) {  // @reach=end
  fuel = FUEL + 1;
  int id = new_id();
  G g = body(id, 1, 2);
  consume(g, id, 3);
}
VS_ENTRY(gen_nested) {  // @reach=end
  fuel = FUEL;
  int id = new_id();
  G g = body(id, 3, 3);
  consume(g, id, 2);
}
VS_ENTRY(gen_partly) {  // @reach=end
  fuel = FUEL;
  int id = new_id();
  G g = body(id, 3, 4);
  consume(g, id, 0);
}
VS_ENTRY(gen_ranges) {  // @reach=end
  fuel = FUEL - 1;
  int id = new_id();
  G g = body(id, 3, 5);
  consume(g, id, 1);
}
// dropping at any point: nothing of the body runs any more, everything is destroyed
VS_ENTRY(gen_drop) {  // @reach=dropped
  fuel = FUEL;
  int id = new_id();
  {
    G g = body(id, 3, 4);
    if (vs_choice("start", 2)) {
      auto it = g.begin();
      while (it != g.end() && vs_choice("go", 2)) {
        got(*it);
        it++;
      }
    }
  }
  VS_ASSERTM(live == 0, "all bodies' objects are destroyed with the generator");
  vs_reach("dropped");
}
// a generator of events: nothing_t
static generator<nothing_t> events(int n, int depth, int& cnt) {
  Live l;
  for (int i = 0; i < n; ++i) {
    ++cnt;
    co_yield {};
    if (depth && vs_choice("sub", 2)) co_yield elements_of(events(1, depth - 1, cnt));
  }
}
VS_ENTRY(gen_nothing) {  // @reach=end
  int cnt = 0, seen = 0;
  auto g = events(vs_choice("n", 3), 1, cnt);
  const bool post = vs_choice("post", 2);   // it++ does what ++it does
  for (auto it = g.begin(); it != g.end(); post ? (void)it++ : (void)++it) {
    ++seen;
    VS_ASSERTM(seen == cnt, "one delivery per yield");
  }
  VS_ASSERT(seen == cnt && g.empty() && live == 0);
  VS_ASSERT(g.begin() == g.end());
  vs_reach("end");
}
VS_ENTRY(gen_nothing_empty) {
  generator<nothing_t> g;
  VS_ASSERT(g.empty());
  VS_ASSERT(g.begin() == g.end());
}
VS_ENTRY(gen_empty) {
  G g;
  VS_ASSERT(g.empty() && g.begin() == g.end());
  G h;
  VS_ASSERT(g == h);
  int n = 0;
  for (int x : g) ++n;
  VS_ASSERT(n == 0);
}
// a lazily driven input range spliced in: each element is computed only when it is asked for
struct LazyRange {
  int n, i = 0;
  struct It {
    LazyRange* r;
    using difference_type = ptrdiff_t;
    using value_type = int;
    int operator*() const {
      int v = symv();
      q.push(v);
      return v;
    }
    It& operator++() {
      CLEAN();
      ++r->i;
      return *this;
    }
    void operator++(int) { ++*this; }
    bool operator==(std::default_sentinel_t) const { return r->i == r->n; }
  };
  It begin() { return It{this}; }
  std::default_sentinel_t end() { return {}; }
};
static G lazy(int n, int m, int id) {
  co_yield elements_of(LazyRange{n});
  CLEAN();
  LazyRange r{m};
  co_yield elements_of(r);
  VS_ASSERT(r.i == m);
  done_[id] = true;
}
VS_ENTRY(gen_lazy_range) {  // @reach=end
  int id = new_id();
  G g = lazy(vs_choice("n", 3), vs_choice("m", 3), id);
  consume(g, id, 1);
}
// deeper and longer than the free programs above, in fewer shapes
static G deep(int d, int id) {
  Live l;
  ++started;
  int v = symv();
  q.push(v);
  co_yield int(v);
  CLEAN();
  if (d > 0) {
    int c = new_id();
    if (d % 3 == 2) {          // advanced by one value before it is spliced in
      G g = deep(d - 1, c);
      auto it = g.begin();
      got(*it);
      co_yield elements_of(std::move(g));
    } else
      co_yield elements_of(deep(d - 1, c));
    VS_ASSERTM(done_[c], "the nested generator ran to its end");
    CLEAN();
  }
  v = symv();
  q.push(v);
  co_yield int(v);
  CLEAN();
  done_[id] = true;
}
VS_ENTRY(gen_deep) {  // @reach=end
  int id = new_id();
  G g = deep(vs_choice("depth", 12), id);
  consume(g, id, 1);
}
static G tree(int d, int id) {
  Live l;
  ++started;
  if (d == 0) {
    int v = symv();
    q.push(v);
    co_yield int(v);
    CLEAN();
  } else
    for (int i = 0; i < 2; ++i) {
      int c = new_id();
      co_yield elements_of(tree(d - 1, c));
      VS_ASSERT(done_[c]);
    }
  done_[id] = true;
}
VS_ENTRY(gen_tree) {  // @reach=end
  int id = new_id();
  G g = tree(vs_choice("depth", 5), id);
  consume(g, id, 1);
}
static G wide(int n, int id) {
  Live l;
  ++started;
  for (int i = 0; i < n; ++i) {
    int v = symv();
    q.push(v);
    co_yield int(v);
    CLEAN();
  }
  int a[20];
  for (int& x : a) q.push(x = symv());
  co_yield elements_of(a);
  CLEAN();
  for (int i = 0; i < n; ++i) {
    int c = new_id();
    co_yield elements_of(deep(0, c));
    VS_ASSERT(done_[c]);
  }
  std::vector<int> b(a, a + n);
  for (int x : b) q.push(x);
  co_yield elements_of(std::move(b));
  CLEAN();
  done_[id] = true;
}
VS_ENTRY(gen_wide) {  // @reach=end
  int id = new_id();
  G g = wide(vs_choice("n", 3) * 10, id);
  consume(g, id, 1);
}
