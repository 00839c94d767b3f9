// BOUND: up to 11 values per body (2-3 in the histories), symbolic, a throw at any position (on creation included), three objects, histories of 4 (quick) / 5 (thorough) operations out of
// BOUND: advance, swap, move-assign, move-construct, self-move, temporary taking over and dropping
// @must_compile
#include "seq.h"
#include <kelcoro/inplace_generator.hpp>
using namespace dd;
#ifdef VS_THOROUGH
constexpr int STEPS = 5;
#else
constexpr int STEPS = 4;
#endif
using G = inplace_generator<int>;
static int last[4], cnt[4];
static bool ended[4];
struct Err {
  int tag;
  static inline const void* obj;
  explicit Err(int t) : tag(t) { obj = this; }
};
static int thrown_tag;
static G values(int id, int n, int throw_at, bool hold) {
  Live l;
  for (int i = 0; i < n; ++i) {
    if (i == throw_at) {
      failed_[id] = ended[id] = true;
      throw Err(thrown_tag = symv());
    }
    last[id] = symv();
    ++cnt[id];
    if (hold) {
      const int& c = last[id];
      co_yield c;
    } else
      co_yield int(last[id]);
  }
  if (n == throw_at) {
    failed_[id] = ended[id] = true;
    throw Err(thrown_tag = symv());
  }
  done_[id] = ended[id] = true;
}
VS_ENTRY(ip_sequence) {  // @reach=end,thrown
  int n = vs_choice("n", 12), at = vs_choice("at", n + 1);  // 0: never
  {
    G g = values(0, n, at == 0 ? -1 : at, vs_choice("hold", 2));
    VS_ASSERTM(n == 0 ? g.empty() && ended[0] : cnt[0] == 1 && !g.empty(), "the first value is computed on creation");
    int seen = 0;
    bool thrown = false;
    try {
      for (auto it = g.begin(); it != g.end(); at & 1 ? (void)it++ : (void)++it) {
        ++seen;
        VS_ASSERT(cnt[0] == seen && *it == last[0] && *it.operator->() == last[0] && g);
      }
    } catch (Err& e) {
      thrown = true;
      VS_ASSERT(e.tag == thrown_tag && &e == Err::obj);
      vs_reach("thrown");
    }
    VS_ASSERT(thrown == (at != 0) && seen == (at ? at : n));
    VS_ASSERT(g.empty() && !g && g.begin() == g.end() && live == 0);
  }
  VS_ASSERT(live == 0);
  vs_reach("end");
}
// the body throws while it computes the first value: whoever creates the generator sees it, nothing is left behind
VS_ENTRY(ip_creation_throws) {  // @reach=end
  struct Arg {
    Live l;
    int v;
  };
  auto body = [](Arg a, int throw_at) -> G {
    Live l;
    if (throw_at == 0) throw Err(thrown_tag = a.v);
    co_yield int(a.v);
    if (throw_at == 1) throw Err(thrown_tag = a.v);
  };
  int at = vs_choice("at", 3), v = symv();
  bool thrown = false;
  int seen = 0;
  try {
    G g = body(Arg{{}, v}, at);
    for (int x : g) {
      VS_ASSERT(x == v);
      ++seen;
    }
    VS_ASSERT(at == 2);
  } catch (Err& e) {
    thrown = true;
    VS_ASSERT(e.tag == v && &e == Err::obj);
  }
  VS_ASSERT(thrown == (at != 2) && seen == (at != 0));
  VS_ASSERT(live == 0);
  vs_reach("end");
}
// an element whose copy fails: the producer sees it at the co_yield; uncaught it reaches whoever advances
struct Frail {
  int v;
  Live l;
  static inline bool throws = false;
  Frail(int x) : v(x) {}
  Frail(const Frail& o) : v(o.v) {
    if (throws) throw Boom{o.v};
  }
};
VS_ENTRY(ip_copy_throws) {  // @reach=thrown,end
  // two bodies: with the handler and the plain one in a single body clang -O0 keeps the exception in flight in the frame
  // that a failing creation frees (see DESIGN)
  auto guarded = [](int at, int v) -> inplace_generator<Frail> {
    Live l;
    const Frail a(v);
    for (int i = 0; i < 2; ++i) {
      Frail::throws = i == at;
      bool threw = false;
      try {
        co_yield a;
      } catch (Boom& b) {
        threw = true;
        VS_ASSERT(b.tag == v);
      }
      VS_ASSERTM(threw == (i == at), "the producer sees that its element could not be copied");
    }
  };
  auto plain = [](int at, int v) -> inplace_generator<Frail> {
    Live l;
    const Frail a(v);
    for (int i = 0; i < 2; ++i) {
      Frail::throws = i == at;
      co_yield a;
    }
  };
  int at = vs_choice("at", 3), v = symv();
  bool guard = vs_choice("guard", 2), thrown = false;
  int seen = 0;
  try {
    auto g = guard ? guarded(at, v) : plain(at, v);
    for (auto&& x : g) {
      VS_ASSERT(x.v == v);
      ++seen;
    }
    VS_ASSERT(g.empty());
  } catch (Boom& b) {
    thrown = true;
    VS_ASSERT(b.tag == v);
    vs_reach("thrown");
  }
  VS_ASSERT(thrown == (at != 2 && !guard) && seen == (guard ? 2 - (at != 2) : at));
  VS_ASSERT(live == 0);
  vs_reach("end");
}
VS_ENTRY(ip_range_for) {  // @reach=end
  int n = vs_choice("n", 4), seen = 0;
  {
    auto g = values(0, n, -1, false);
    for (int&& x : g) {
      VS_ASSERT(x == last[0] && cnt[0] == ++seen);
      if (vs_choice("break", 2)) break;
    }
    // continue after a break: begin() does not advance
    if (!g.empty()) {
      auto it = g.begin();
      VS_ASSERT(*it == last[0] && cnt[0] == seen);
    }
  }
  VS_ASSERT(live == 0);
  vs_reach("end");
}
static const void* H[3];
static int N[3] = {2, 3, 1};
struct Slot {
  int id;  // -1: moved from
};
static void check(G& g, int id) {
  if (id < 0) {
    VS_ASSERTM(g.empty() && !g && g.begin() == g.end(), "a moved-from generator is empty");
    return;
  }
  VS_ASSERTM(g.empty() == ended[id], "the generator is empty exactly when its body ended");
  if (!ended[id]) VS_ASSERTM(g.begin() != g.end() && *g.begin() == last[id], "begin() shows the current value");
  else VS_ASSERT(g.begin() == g.end());
}
static void advance(G& g, int id) {
  if (g.empty()) return;
  auto it = g.begin();
  int n = cnt[id];
  try {
    if (n & 1) it++;
    else ++it;
    VS_ASSERT(ended[id] ? it == g.end() && cnt[id] == n : *it == last[id] && cnt[id] == n + 1);
  } catch (Err& e) {
    VS_ASSERT(failed_[id] && e.tag == thrown_tag && it == g.end());
  }
  vs_reach("advanced");
}
VS_ENTRY(ip_history) {  // @reach=end,advanced
  {
    G a = values(0, 2, -1, false), b = values(1, 3, vs_choice("throw", 2) ? 2 : -1, true);
    int ia = 0, ib = 1;
    auto ita = a.begin();
    bool ita_ok = true;  // ita belongs to body 0 wherever it is
    for (int s = 0; s < STEPS; ++s) {
      switch (vs_choice("op", 7)) {
        case 0: advance(a, ia); break;
        case 1: advance(b, ib); break;
        case 2:
          swap(a, b);
          std::swap(ia, ib);
          break;
        case 3: {
          int before = ib;
          a = std::move(b);
          check(a, before);
          ib = ia;
          ia = before;
          break;
        }
        case 4: {
          G t(std::move(a));
          check(t, ia);
          check(a, -1);
          if (ia >= 0) advance(t, ia);
          if (vs_choice("back", 2)) a = std::move(t);
          else {
            if (ia == 0) ita_ok = false;
            ia = -1;
          }
          break;
        }
        case 5: {
          G& r = a;
          a = std::move(r);
          break;
        }
        case 6:
          if (ita_ok && !ended[0]) {
            VS_ASSERTM(*ita == last[0], "an iterator goes with its iteration");
            ++ita;
            VS_ASSERT(ended[0] ? ita == std::default_sentinel : *ita == last[0]);
          }
          break;
      }
      check(a, ia);
      check(b, ib);
    }
  }
  VS_ASSERTM(live == 0, "every body is destroyed");
  vs_reach("end");
}
