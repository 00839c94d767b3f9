// BOUND: three channel objects over two bodies (one flat, one nested with a suspension), every history of 3 (quick) / 4 (thorough) operations, and of 4 / 5 with next() only, out of
// BOUND: advance by next(), begin() or an existing iterator, swap, move-assign, move-construct, self-move, clear, release+reset, assign empty, drop; values symbolic
// BOUND: chains of depth 0-5 with up to two operations anywhere
// @must_compile
#include "seq.h"
#include <kelcoro/channel.hpp>
using namespace dd;
#ifdef VS_THOROUGH
constexpr int STEPS = 4, STEPS2 = 5;
#else
constexpr int STEPS = 3, STEPS2 = 4;
#endif
using C = channel<int>;
static int cnt[4], last[4];
static bool began[4], ended[4], linked[4];
static C leaf(int id) {
  Live l;
  last[id] = symv();
  ++cnt[id];
  co_yield int(last[id]);
  co_await Park{};
}
static C flat(int id) {
  Live l;
  began[id] = true;
  for (int i = 0; i < 2; ++i) {
    last[id] = symv();
    ++cnt[id];
    co_yield int(last[id]);
  }
  ended[id] = true;
}
static C nested(int id) {
  Live l;
  began[id] = true;
  co_yield elements_of(leaf(id));
  last[id] = symv();
  ++cnt[id];
  co_yield int(last[id]);
  ended[id] = true;
}
static void* H[2];
static int ident(C& g) {
  void* h = g.raw_handle().address();
  if (!h) return -1;
  if (h == H[0]) return 0;
  VS_ASSERTM(h == H[1], "the object holds one of the coroutines");
  return 1;
}
static void current(C& g) {
  int i = ident(g);
  if (i < 0 || !began[i] || !linked[i]) return;
  channel_iterator<int> it(g);
  if (ended[i]) VS_ASSERT(it == g.end() && g.empty());
  else VS_ASSERTM(it != g.end() && *it == last[i], "iterators of the object show its coroutine's current value");
}
static void equal(C& a, C& b) {  // a coroutine has one owner: different objects are equal only when both are empty
  VS_ASSERTM(a == a && (a == b) == (a.empty() && b.empty()) && (a == b) == (b == a), "equal iff the same object or both empty");
}
// a consumer coroutine: everything happens inside it, so iterators stay usable
#define ADVANCE(g)                                                                                                     \
  {                                                                                                                    \
    C& g_ = (g);                                                                                                       \
    int i_ = ident(g_);                                                                                                \
    int n_ = i_ < 0 ? 0 : cnt[i_];                                                                                     \
    int* p_;                                                                                                           \
    int how_ = vs_choice("how", i_ >= 0 && began[i_] && linked[i_] && !ended[i_] ? hows : hows > 2 ? 2 : 1);                              \
    if (how_ == 0) {                                                                                                   \
      p_ = co_await g_.next();                                                                                         \
    } else if (how_ == 1) {                                                                                            \
      auto it_ = co_await g_.begin();                                                                                  \
      p_ = it_ == g_.end() ? nullptr : &*it_.operator->();                                                             \
    } else {                                                                                                           \
      channel_iterator<int> it_(g_);                                                                                   \
      co_await ++it_;                                                                                                  \
      p_ = it_ == g_.end() ? nullptr : &*it_.operator->();                                                             \
    }                                                                                                                  \
    if (i_ < 0) VS_ASSERTM(p_ == nullptr && g_.empty(), "an empty channel iterates nothing");                          \
    else {                                                                                                             \
      linked[i_] = true;                                                                                               \
      if (ended[i_]) VS_ASSERTM(p_ == nullptr && cnt[i_] == n_, "the end is reported exactly when the body ended");    \
      else {                                                                                                           \
        VS_ASSERTM(p_ != nullptr && cnt[i_] == n_ + 1 && *p_ == last[i_], "advancing delivers exactly the next value"); \
        vs_reach("value");                                                                                             \
      }                                                                                                                \
    }                                                                                                                  \
  }
static bool finished;
static int steps, hows, ops;
static Co run(C& a, C& b, C& c) {
  for (int s = 0; s < steps; ++s) {
    int ia = ident(a), ib = ident(b), ic = ident(c);
    switch (vs_choice("op", ops)) {
      case 0: ADVANCE(a); break;
      case 1: ADVANCE(b); break;
      case 2:
        swap(a, b);
        VS_ASSERT(ident(a) == ib && ident(b) == ia);
        break;
      case 3:
        a = std::move(b);
        VS_ASSERT(ident(a) == ib && (ident(b) == -1 || ident(b) == ia));
        break;
      case 4: {
        C t(std::move(a));
        VS_ASSERT(a.empty() && ident(a) == -1 && ident(t) == ia);
        VS_ASSERTM(co_await a.next() == nullptr, "a moved-from channel iterates nothing");
        current(t);
        ADVANCE(t);
        if (vs_choice("keep", 2)) a = std::move(t);
        break;
      }
      case 5: {
        a.clear();
        auto it = co_await a.begin();
        VS_ASSERTM(a.empty() && it == a.end() && co_await a.next() == nullptr, "cleared channels iterate nothing");
        break;
      }
      case 6: {
        auto h = a.release();
        VS_ASSERTM(a.empty() && co_await a.next() == nullptr, "released channels iterate nothing");
        c.reset(h);
        VS_ASSERT(ident(c) == ia && ident(a) == -1);
        if (ia >= 0) linked[ia] = false;
        ADVANCE(c);
        break;
      }
      case 7:
        b.swap(c);
        VS_ASSERT(ident(b) == ic && ident(c) == ib);
        break;
      case 8: {
        C& r = a;
        a = std::move(r);
        a.swap(r);
        VS_ASSERT(ident(a) == ia);
        break;
      }
      case 9: ADVANCE(c); break;
    }
    current(a);
    current(b);
    current(c);
    equal(a, b);
    equal(b, c);
    equal(c, a);
  }
  if (vs_choice("finish", 2)) {
    hows = 1;
    for (C* g : {&a, &b, &c}) {
      int i = ident(*g);
      while (!g->empty()) ADVANCE(*g);
      if (i >= 0) VS_ASSERT(ended[i] && cnt[i] == 2);
    }
  }
  finished = true;
}
static void history() {
  {
    C a = flat(0), b = nested(1), c;
    H[0] = a.raw_handle().address();
    H[1] = b.raw_handle().address();
    run(a, b, c);
    drive(false);
    VS_ASSERTM(finished, "the consumer is never lost");
  }
  VS_ASSERTM(live == 0, "every body is destroyed");
  vs_reach("end");
}
VS_ENTRY(cobj_history) {  // @reach=value,end
  steps = STEPS;
  hows = 3;
  ops = 10;
  history();
}
VS_ENTRY(cobj_history_long) {  // @reach=value,end
  steps = STEPS2;
  hows = 1;
  ops = 8;
  history();
}
// an exception that was not taken yet follows the coroutine through moves and swaps
static C failing(int id, int n) {
  Live l;
  for (int i = 0; i < n; ++i) co_yield int(id);
  throw Boom{id};
}
static C fails_inside(int id, int n) {
  Live l;
  co_yield elements_of(failing(id, n));
  co_yield int(id + 1);
}
static int taken(C& c) {
  auto e = c.take_exception();
  if (!e) return 0;
  VS_ASSERTM(!c.take_exception(), "taken once");
  try {
    std::rethrow_exception(e);
  } catch (Boom& b) {
    return b.tag;
  }
  return -1;
}
static Co run_failing(C& a, C& b, bool both, int na, int nb) {
  C c;
  C* pa = &a;                  // where the coroutine of a / b is now
  C* pb = &b;
  for (int i = 0; i <= na; ++i) {
    int* p = co_await a.next();
    VS_ASSERT(i < na ? p && *p == 10 : !p);
  }
  if (both)
    for (int i = 0; i <= nb; ++i) {
      int* p = co_await b.next();
      VS_ASSERT(i < nb ? p && *p == 20 : !p);
    }
  for (int s = 0; s < 2; ++s)
    switch (vs_choice("op", 5)) {
      case 0:
        swap(a, b);
        for (C** p : {&pa, &pb}) *p = *p == &a ? &b : *p == &b ? &a : *p;
        break;
      case 1: {
        C t(std::move(*pa));
        VS_ASSERTM(taken(*pa) == 0, "the pending exception went with the coroutine");
        *pa = std::move(t);
        break;
      }
      case 2: {
        C* dst = pb == &c ? &b : &c;
        if (dst != pa && dst != pb) {
          *dst = std::move(*pa);
          pa = dst;
        }
        break;
      }
      case 3: a.swap(a); break;
      case 4:
        b.swap(c);
        for (C** p : {&pa, &pb}) *p = *p == &c ? &b : *p == &b ? &c : *p;
        break;
    }
  for (C* p : {&a, &b, &c})
    VS_ASSERTM(taken(*p) == (p == pa ? 10 : both && p == pb ? 20 : 0), "each pending exception is with the object that holds its coroutine");
  // a nested failure: the enclosing body continues
  if (!pa->empty()) {
    int* p = co_await pa->next();
    VS_ASSERTM(p && *p == 11, "the enclosing body continues in the new object");
    VS_ASSERT(!co_await pa->next() && pa->empty() && taken(*pa) == 0);
  }
  finished = true;
}
VS_ENTRY(cobj_pending_exception) {  // @reach=end
  {
    int na = vs_choice("na", 2), nb = vs_choice("nb", 2);
    C a = vs_choice("nested", 2) ? fails_inside(10, na) : failing(10, na), b = failing(20, nb);
    run_failing(a, b, vs_choice("both", 2), na, nb);
    VS_ASSERTM(finished, "the consumer is never lost");
  }
  VS_ASSERTM(live == 0, "every body is destroyed");
  vs_reach("end");
}
// the channel object is destroyed with its consumer while the body is suspended outside of a yield
VS_ENTRY(cobj_drop_while_parked) {
  {
    C c = nested(1);
    H[1] = c.raw_handle().address();
    struct Own {
      struct promise_type {
        Own get_return_object() noexcept { return {std::coroutine_handle<promise_type>::from_promise(*this)}; }
        std::suspend_never initial_suspend() noexcept { return {}; }
        std::suspend_always final_suspend() noexcept { return {}; }
        void return_void() noexcept {}
        void unhandled_exception() noexcept {}
      };
      std::coroutine_handle<promise_type> h;
    };
    auto f = [](C c) -> Own {
      int* p = co_await c.next();
      VS_ASSERT(p && *p == last[1]);
      p = co_await c.next();  // parks inside of the nested channel
      VS_ASSERT(false);
    };
    Own o = f(std::move(c));
    VS_ASSERT(parked && !o.h.done());
    parked = nullptr;
    o.h.destroy();
  }
  VS_ASSERTM(live == 0, "dropping the consumer drops the channel and all its bodies");
}
// a longer chain of nested channels: up to two operations on the outer object anywhere in the iteration
static int total;
static C chain(int d) {
  Live l;
  last[0] = symv();
  ++cnt[0];
  co_yield int(last[0]);
  if (d % 3 == 1) co_await Park{};
  if (d > 0) {
    co_yield elements_of(chain(d - 1));
    last[0] = symv();
    ++cnt[0];
    co_yield int(last[0]);
  }
}
#define NEXT_OF(g, more)                                                                                               \
  {                                                                                                                    \
    int n_ = cnt[0];                                                                                                   \
    int* p_ = co_await (g).next();                                                                                     \
    more = p_ != nullptr;                                                                                              \
    if (n_ == total) VS_ASSERTM(!p_ && (g).empty() && cnt[0] == n_, "the end comes after the last value");             \
    else VS_ASSERTM(p_ && cnt[0] == n_ + 1 && *p_ == last[0], "the next value of the innermost running channel");      \
  }
static Co run_chain(C& a, C& b, int d) {
  C* g = &a;
  int left = 2;
  bool more;
  for (;;) {
    NEXT_OF(*g, more);
    if (!more) break;
    if (!left || !vs_choice("change", 2)) continue;
    --left;
    C* o = g == &a ? &b : &a;
    switch (vs_choice("op", 6)) {
      case 0: swap(a, b); g = o; break;
      case 1: *o = std::move(*g); g = o; break;
      case 2: o->reset(g->release()); g = o; break;
      case 3: {
        C t(std::move(*g));
        NEXT_OF(t, more);
        *g = std::move(t);
        break;
      }
      case 4:
        g->clear();
        VS_ASSERTM(live == 0, "clear() destroys the whole chain");
        total = cnt[0];
        break;
      case 5:
        *g = chain(1);
        cnt[0] = 0;
        total = 3;
        break;
    }
  }
  if (cnt[0] == total) vs_reach("all");
  finished = true;
}
VS_ENTRY(cobj_chain) {  // @reach=end,all
  {
    int d = vs_choice("depth", 6);
    C a = chain(d), b;
    total = 2 * d + 1;
    run_chain(a, b, d);
    drive(false);
    VS_ASSERTM(finished, "the consumer is never lost");
  }
  VS_ASSERTM(live == 0, "every body is destroyed");
  vs_reach("end");
}
// an exception nobody took ends with its coroutine: what the object is given next has its own outcome only
static Co refilled(C& a, int how, int na, int nb, bool fails) {
  for (int i = 0; i <= na; ++i) {
    int* p = co_await a.next();
    VS_ASSERT(i < na ? p && *p == 10 : !p);
  }
  int seen = 0;
  int thrown = 0;
  C other = fails ? failing(20, nb) : chain(1);
  switch (how) {
    case 0: a.reset(other.release()); break;
    case 1:
      a.clear();
      a.reset(other.release());
      break;
    case 2:
      a.clear();
      VS_ASSERT(a.empty());
      try {
        co_foreach(int x, a) {
          (void)x;
          VS_ASSERTM(false, "a cleared channel is empty");
        }
      } catch (Boom&) {
        VS_ASSERTM(false, "a cleared channel does not fail");
      }
      a = std::move(other);
      break;
    case 3: a = std::move(other); break;
  }
  bool by_next = vs_choice("next", 2);
  try {
    if (by_next)
      while (int* p = co_await a.next()) {
        if (fails) VS_ASSERT(*p == 20);
        ++seen;
      }
    else
      co_foreach(int x, a) {
        if (fails) VS_ASSERT(x == 20);
        ++seen;
      }
  } catch (Boom& b) {
    VS_ASSERT(!by_next);
    thrown = b.tag;
  }
  if (by_next) thrown = taken(a);
  VS_ASSERTM(thrown == (fails ? 20 : 0), "only the exception of the coroutine the object holds");
  VS_ASSERT(seen == (fails ? nb : 3) && a.empty() && taken(a) == 0);
  finished = true;
}
VS_ENTRY(cobj_refilled_after_failure) {  // @reach=end
  {
    int na = vs_choice("na", 2), nb = vs_choice("nb", 2);
    C a = failing(10, na);
    refilled(a, vs_choice("how", 4), na, nb, vs_choice("fails", 2));
    drive(false);
    VS_ASSERTM(finished, "the consumer is never lost");
  }
  VS_ASSERTM(live == 0, "every body is destroyed");
  vs_reach("end");
}
