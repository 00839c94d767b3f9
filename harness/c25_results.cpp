// BOUND: result types int, 40 byte trivial, trivial with a constructor, trivially destructible without default constructor, non trivial, non trivial without default constructor, move only, not movable, throwing on construction, T&, const T&, reference to base, void; values symbolic 32 bit
// BOUND: ends: co_return of a value to convert / rvalue / const lvalue, return place + rvo (also asked for twice, also replaced by a value), throw before / after the return place, constructor of the result throws (from co_return or in the return place, retried or not), dropped unstarted / suspended before / after the return place
// BOUND: consumers: co_await (read in place twice, moved out), get() once or twice, wait() and never read; task, resourced task, async_task, when_all; outcome holder: every value/error type pair of a list, copies, moves, assignments (one step)
// @must_compile
#include "seq.h"
#include <kelcoro/kelcoro.hpp>
#include <kelcoro/algorithm.hpp>
using namespace dd;
static ghost made, gone, copies, moves;
struct NoDefTag {};
// a tracked object; movable / copyable / default constructible or not
template <int K> struct Tracked {
  int magic = 5150;
  int v;
  Tracked() requires(K == 0 || K == 1) : v(-7) { ++made; }
  explicit(K == 3) Tracked(int x) : v(x) {
    if (K == 4 && x < 0) throw Boom{x};
    ++made;
  }
  Tracked(const Tracked& o) requires(K == 0 || K == 4) : v(o.v) {
    vs_assert(o.magic == 5150, "copied from a live object");
    ++made;
    ++copies;
  }
  Tracked(Tracked&& o) requires(K != 3) : v(o.v) {
    vs_assert(o.magic == 5150, "moved from a live object");
    o.v = -9;
    ++made;
    ++moves;
  }
  ~Tracked() {
    vs_assert(magic == 5150, "a result object is destroyed twice or was never constructed");
    magic = 0;
    ++gone;
  }
};
using Obj = Tracked<0>;       // default constructible, copyable
using MoveOnly = Tracked<1>;  // default constructible, move only
using NoDef = Tracked<2>;     // not default constructible, move only
using Pinned = Tracked<3>;    // not movable, not default constructible
using Picky = Tracked<4>;     // constructor throws for negative values
struct Big { int v; int pad[9]; Big() = default; Big(int x) : v(x) { for (int& p : pad) p = x; } };
struct Init { int v; Init() : v(-7) {} Init(int x) : v(x) {} };
struct TrivNoDef { int v; TrivNoDef(int x) : v(x) {} };
static_assert(std::is_trivially_destructible_v<TrivNoDef> && !std::is_default_constructible_v<TrivNoDef>);
template <class T> constexpr bool tracked = !std::is_trivially_destructible_v<T>;
template <class T> static int val(T& x) {
  if constexpr (std::is_integral_v<T>) return x;
  else {
    if constexpr (tracked<T>) vs_assert(x.magic == 5150, "the result object is alive");
    if constexpr (std::is_same_v<T, Big>) for (int p : x.pad) vs_assert(p == x.v, "the whole object is delivered");
    return x.v;
  }
}
static const void* built;      // where the result was built, if in the return place
static bool ended_, failed__, started_;
static int expect_;
template <class T> static void set(T& place, int v) {
  if constexpr (std::is_integral_v<T>) place = v;
  else if constexpr (std::is_same_v<T, Big>) place = Big(v);
  else place.v = v;
}
struct Mark {        // sets a flag when the body is left
  ~Mark() { ended_ = true; }
};
template <class C> struct is_async : std::false_type {};
template <class T> struct is_async<async_task<T>> : std::true_type {};
// enters the return place of the running coroutine
template <class C, class T, bool Def> static C body(int how, int v) {
  Mark m;
  started_ = true;
  expect_ = v;
  switch (how) {
    case 0: co_return v;
    case 1: if constexpr (std::is_move_constructible_v<T>) { co_return T(v); } break;
    case 2: if constexpr (std::is_copy_constructible_v<T>) { const T x(v); co_return x; } break;
    case 3: failed__ = true; throw Boom{v};
    case 4: co_await Park{}; co_return v;
    default: break;
  }
  if constexpr (!is_async<C>::value) {
    if constexpr (Def) {
      T& place = co_await this_coro::return_place;
      built = &place;
      if constexpr (tracked<T> || std::is_same_v<T, Init>) vs_assert(place.v == -7, "the return place holds a constructed object");
      if (how == 9) {
        T& again = co_await this_coro::return_place;
        vs_assert(&again == &place, "there is one return place");
      }
      if (how == 5) {
        set(place, v);
        co_return rvo;
      }
    } else {
      auto h = co_await this_coro::handle;
      T& place = h.promise().return_place(v);
      built = &place;
      if (how == 9) {
        T& again = h.promise().return_place(v);
        vs_assert(&again == &place, "there is one return place");
      }
      if (how == 5) co_return rvo;
    }
    if (how == 6) { failed__ = true; throw Boom{v}; }
    if (how == 7) co_return v;
    if (how == 8) { co_await Park{}; co_return v; }
    if (how == 9) { if constexpr (Def) set(*(T*)built, v); co_return rvo; }
  }
  co_return v;
}
template <class T> static void taken(T& r) {
  vs_assert(val(r) == expect_, "the caller receives the returned object");
  if (built) vs_assert((const void*)&r == built, "the caller receives the object built in the return place");
}
static std::coroutine_handle<> consumer_h;
template <class C, class T> static Co consume(C t, int use) {
  consumer_h = co_await this_coro::handle;
  bool threw = false;
  try {
    if (use == 0) {
      T&& r = co_await t;
      taken(r);
      T&& again = co_await t;
      vs_assert(&again == &r, "awaiting again gives the same object");
      taken(again);
    } else if (use == 1) {
      if constexpr (std::is_move_constructible_v<T>) {
        T r = co_await t;
        vs_assert(val(r) == expect_, "the caller receives the returned object");
        built = nullptr;
      } else co_await t.wait();
    } else if (use == 2) {
      co_await t.wait();
      vs_assert(ended_, "wait() continues after the end");
    } else if (use == 3) {
      co_await t.wait();
      if constexpr (std::is_move_constructible_v<T>) {
        int64_t mk = made;
        T r = t.get();
        vs_assert(!tracked<T> || made == mk + 1, "get() makes exactly the object it returns");
        vs_assert(val(r) == expect_, "get() gives the returned object");
      }
    }
  } catch (Boom& b) {
    threw = true;
    vs_assert(b.tag == expect_, "the exception is the one thrown");
  }
  if (use != 2 && !(use == 1 || use == 3)) vs_assert(threw == failed__, "an exception arrives exactly if the body threw");
  if ((use == 1 || use == 3) && std::is_move_constructible_v<T>) vs_assert(threw == failed__, "an exception arrives exactly if the body threw");
}
template <class C, class T, bool Def, int Max = 10> static void one() {
  int how = vs_choice("how", Max), use = vs_choice("use", 5);
  vs_assume(std::is_move_constructible_v<T> || how != 1);
  vs_assume(std::is_copy_constructible_v<T> || how != 2);
  vs_assume(std::is_move_constructible_v<T> || use != 1);
  int v = symv();
  {
    C t = body<C, T, Def>(how, v);
    vs_assert(!started_, "a task does not start until awaited");
    if (use == 4) {                       // dropped unstarted
      C u = std::move(t);
      vs_assert(t.empty(), "moved from");
    } else
      consume<C, T>(std::move(t), use);
  }
  if (parked) {
    if (vs_choice("drop", 2)) {
      consumer_h.destroy();               // owner and task die while the body is suspended
      parked = nullptr;
      vs_reach("dropped");
    } else
      drive(false);
  }
  vs_assert(ended_ || !started_, "the body is gone");
  vs_assert(made == gone, "each result object is destroyed exactly once");
  vs_assert(vs_heap_live() == 0, "no frame is left");
  vs_reach("end");
}
VS_ENTRY(task_int) {  // @reach=end,dropped
  one<task<int>, int, true>();
}
VS_ENTRY(task_big) {  // @reach=end,dropped
  one<task<Big>, Big, true>();
}
VS_ENTRY(task_init) {  // @reach=end,dropped
  one<task<Init>, Init, true>();
}
VS_ENTRY(task_trivial_no_default) {  // @reach=end,dropped
  one<task<TrivNoDef>, TrivNoDef, false>();
}
VS_ENTRY(task_object) {  // @reach=end,dropped
  one<task<Obj>, Obj, true>();
}
VS_ENTRY(task_move_only) {  // @reach=end,dropped
  one<task<MoveOnly>, MoveOnly, true>();
}
VS_ENTRY(task_no_default) {  // @reach=end,dropped
  one<task<NoDef>, NoDef, false>();
}
VS_ENTRY(task_pinned) {  // @reach=end,dropped
  one<task<Pinned>, Pinned, false>();
}
VS_ENTRY(resourced_task_object) {  // @reach=end,dropped
  one<pmr::task<Obj>, Obj, true>();
}
// the constructor of the result throws for some values
template <class C> static C picky(int how, int v) {
  Mark m;
  started_ = true;
  expect_ = v;
  failed__ = v < 0;
  if (how == 0) co_return v;
  auto h = co_await this_coro::handle;
  if (how == 1) {
    h.promise().return_place(v);
    co_return rvo;
  }
  failed__ = false;
  expect_ = 1;
  h.promise().return_place(1);
  failed__ = v < 0;
  expect_ = v;
  if (how == 2) co_return v;                      // replaces the object, or throws with the place already built
  try {
    h.promise().return_place(v);
  } catch (Boom&) {
    failed__ = false;
    expect_ = 3;
    h.promise().return_place(3);
  }
  co_return rvo;
}
VS_ENTRY(throwing_result) {  // @reach=end,threw
  int how = vs_choice("how", 4), use = vs_choice("use", 2), v = symv();
  if (vs_choice("resourced", 2)) {
    pmr::task<Picky> t = picky<pmr::task<Picky>>(how, v);
    consume<task<Picky>, Picky>(std::move(t.decay()), use);
  } else
    consume<task<Picky>, Picky>(picky<task<Picky>>(how, v), use);
  if (failed__) vs_reach("threw");
  vs_assert(ended_, "the body is gone");
  vs_assert(made == gone, "each result object is destroyed exactly once");
  vs_assert(vs_heap_live() == 0, "no frame is left");
  vs_reach("end");
}
// the same with results that need no destructor (their storage is handled differently)
struct TrivThrow {
  int v;
  TrivThrow() = default;
  TrivThrow(int x) : v(x) {
    if (x < 0) throw Boom{x};
  }
};
struct TrivThrowNoDef {
  int v;
  TrivThrowNoDef(int x) : v(x) {
    if (x < 0) throw Boom{x};
  }
};
static_assert(std::is_trivially_destructible_v<TrivThrow> && std::is_default_constructible_v<TrivThrow>);
VS_ENTRY(throwing_trivial_result) {  // @reach=end,threw
  int how = vs_choice("how", 4), use = vs_choice("use", 2), v = symv();
  if (vs_choice("def", 2))
    consume<task<TrivThrow>, TrivThrow>(picky<task<TrivThrow>>(how, v), use);
  else
    consume<task<TrivThrowNoDef>, TrivThrowNoDef>(picky<task<TrivThrowNoDef>>(how, v), use);
  if (failed__) vs_reach("threw");
  vs_assert(ended_, "the body is gone");
  vs_assert(vs_heap_live() == 0, "no frame is left");
  vs_reach("end");
}
// references: the very object
struct Base { int b; };
struct Derived { int d; };
struct Both : Derived, Base {};
static Both both;
static int target[2];
template <class R> static task<R> refbody(int how, int i) {
  started_ = true;
  if (how == 0) co_return target[i];
  if (how == 1) {
    auto& p = co_await this_coro::return_place;
    p = &target[i];
    co_return rvo;
  }
  if (how == 2) {
    auto& p = co_await this_coro::return_place;
    p = &target[1 - i];
    co_return target[i];
  }
  throw Boom{i};
}
static task<Base&> basebody() { co_return both; }
static task<const Base&> constbody() {
  Base& b = co_await basebody();
  co_return b;
}
template <class R> static Co refconsume(int how, int i, int use) {
  try {
    task<R> t = refbody<R>(how, i);
    if (use == 0) {
      R r = co_await t;
      R r2 = co_await t;
      vs_assert(&r == &target[i] && &r2 == &r, "the caller gets the very object");
    } else if (use == 1) {
      co_await t.wait();
      R r = t.get();
      vs_assert(&r == &target[i], "get() gives the very object");
    } else {
      R r = t.get();
      vs_assert(&r == &target[i], "get() gives the very object");
    }
    vs_assert(how != 3, "the exception arrives");
    vs_reach("got");
  } catch (Boom& b) {
    vs_assert(how == 3 && b.tag == i, "an exception arrives only if the body threw");
    vs_reach("threw");
  }
  Base& b = co_await basebody();
  vs_assert(&b == &both, "a reference result is converted to the base of the very object");
  const Base& c = co_await constbody();
  vs_assert(&c == &both, "a reference result is converted to the base of the very object");
}
template <class R> static async_task<R> refasync(int i, bool park) {
  if (park) co_await Park{};
  co_return target[i];
}
VS_ENTRY(references) {  // @reach=got,threw,end
  int how = vs_choice("how", 4), i = (int)vs_range("i", 0, 1), use = vs_choice("use", 3);
  if (vs_choice("const", 2)) refconsume<const int&>(how, i, use);
  else refconsume<int&>(how, i, use);
  async_task<int&> a = refasync<int&>(i, vs_choice("park", 2));
  drive(true);
  int& r = a.get();
  vs_assert(&r == &target[i], "get() gives the very object");
  a.detach();
  vs_assert(vs_heap_live() == 0, "no frame is left");
  vs_reach("end");
}
static task<void> voidbody(int how) {
  Mark m;
  if (how == 1) throw Boom{1};
  if (how == 2) co_await Park{};
  co_return;
}
static int after;
static Co voidconsume(int how, int use) {
  try {
    task<void> t = voidbody(how);
    if (use == 0) co_await t;
    if (use == 1) co_await t.wait(), t.get();
    if (use == 2) co_await t.wait();
    if (use == 3) co_await t, co_await t;
    vs_assert(how != 1 || use == 2, "the exception arrives");
  } catch (Boom&) {
    vs_assert(how == 1 && use != 2, "an exception arrives only if the body threw");
  }
  ++after;
}
VS_ENTRY(void_results) {  // @reach=end
  voidconsume(vs_choice("how", 3), vs_choice("use", 4));
  drive(false);
  vs_assert(after == 1 && ended_, "the awaiter continues once, after the end");
  vs_assert(vs_heap_live() == 0, "no frame is left");
  vs_reach("end");
}
// async_task
template <class T> static void async_one() {
  int how = vs_choice("how", 5), v = symv(), use = vs_choice("use", 4);
  vs_assume(std::is_move_constructible_v<T> || how != 1);
  vs_assume(std::is_copy_constructible_v<T> || how != 2);
  {
    async_task<T> t = body<async_task<T>, T, true>(how, v);
    vs_assert(started_, "an async task starts at once");
    async_task<T> u;
    if (use == 3) {                             // result never read, possibly detached early
      t.detach();
      drive(true);
    } else {
      drive(true);
      u = std::move(t);
      vs_assert(u.ready(), "the task is done");
      bool threw = false;
      try {
        if (use == 0) {
          T&& r = u.get();
          taken(r);
          T&& again = u.get();
          vs_assert(&r == &again, "get() gives the same object again");
        } else if (use == 1) {
          if constexpr (std::is_move_constructible_v<T>) {
            T r = u.get();
            vs_assert(val(r) == expect_, "the caller receives the returned object");
          } else
            u.get();
        } else
          threw = failed__;
      } catch (Boom& b) {
        threw = true;
        vs_assert(b.tag == expect_, "the exception is the one thrown");
      }
      vs_assert(threw == failed__, "an exception arrives exactly if the body threw");
    }
  }
  vs_assert(ended_, "the body is gone");
  vs_assert(made == gone, "each result object is destroyed exactly once");
  vs_assert(vs_heap_live() == 0, "no frame is left");
  vs_reach("end");
}
VS_ENTRY(async_int) {  // @reach=end
  async_one<int>();
}
VS_ENTRY(async_trivial_no_default) {  // @reach=end
  async_one<TrivNoDef>();
}
VS_ENTRY(async_object) {  // @reach=end
  async_one<Obj>();
}
VS_ENTRY(async_no_default) {  // @reach=end
  async_one<NoDef>();
}
VS_ENTRY(async_pinned) {  // @reach=end
  async_one<Pinned>();
}
// balance of the results that when_all collects and when_any ignores
template <class T> static Co gather(int h1, int h2, int v, bool any) {
  if (any) {
    auto r = co_await when_any(body<task<T>, T, true>(h1, v), body<task<T>, T, true>(h2, v));
    if (r.index() == 1) vs_assert(std::get<1>(r).has_value() == (h1 != 3), "the outcome of the first task");
    else vs_assert(r.index() == 2 && std::get<2>(r).has_value() == (h2 != 3), "the outcome of the second task");
    if (r.index() == 1 && h1 != 3) vs_assert(val(*std::get<1>(r)) == v, "the value of the first task");
    if (r.index() == 2 && h2 != 3) vs_assert(val(*std::get<2>(r)) == v, "the value of the second task");
  } else {
    auto [a, b] = co_await when_all(body<task<T>, T, true>(h1, v), body<task<T>, T, true>(h2, v));
    vs_assert(a.has_value() == (h1 != 3) && b.has_value() == (h2 != 3), "each outcome in its place");
    if (a) vs_assert(val(*a) == v, "the value of the first task");
    if (b) vs_assert(val(*b) == v, "the value of the second task");
    if (!a) vs_assert(!!a.error(), "the error of the first task");
    if (!b) vs_assert(!!b.error(), "the error of the second task");
  }
  ++after;
}
VS_ENTRY(gathered) {  // @reach=end
  int h1 = vs_choice("how1", 4), h2 = vs_choice("how2", 4);
  bool any = vs_choice("any", 2);
  int v = symv();
  if (vs_choice("type", 2)) {
    vs_assume(h1 != 2 && h2 != 2);
    gather<MoveOnly>(h1, h2, v, any);
  } else
    gather<Obj>(h1, h2, v, any);
  vs_assert(after == 1, "the awaiter continues once");
  vs_assert(made == gone, "each result object is destroyed exactly once");
  vs_assert(vs_heap_live() == 0, "no frame is left");
  vs_reach("end");
}
// ---------- the outcome holder
template <class T> static long num(const T& x) {
  if constexpr (std::is_arithmetic_v<T>) return (long)x;
  else return x.v;
}
// converts to and from everything around it
struct Wide { long v; Wide(long x = 0) : v(x) {} operator long() const { return v; } };
template <class X> static bool is(const X& h, bool value, long n) {
  if (h.has_value() != value || !!h != value) return false;
  if (value) return num(*h) == n;
  return num(h.error()) == n;
}
template <class T, class E> static void holder(int arg) {
  using X = expected<T, E>;
  int kind = vs_choice("kind", 4), next = vs_choice("next", 6);
  bool value = kind < 2;
  long n = arg;
  // given an argument of the exact type, or one that the other alternative likes better
  auto give = [&]() -> X {
    if constexpr (std::is_convertible_v<E, T>) if (kind == 1) return X(E(arg));
    if constexpr (std::is_convertible_v<T, E>) if (kind == 3) return X(unexpected(T(arg)));
    return value ? X(T(arg)) : X(unexpected(E(arg)));
  };
  X h = give();
  vs_assert(is(h, value, n), "the holder reports what it was given");
  const X& ch = h;
  vs_assert(&ch == &h && is(ch, value, n), "the holder reports what it was given");
  if (value) vs_assert(&*ch == &*h, "a value is stored once");
  else vs_assert(&ch.error() == &h.error(), "an error is stored once");
  if (next == 0) {
    X c = h;
    vs_assert(is(c, value, n) && is(h, value, n), "a copy is equal");
  } else if (next == 1) {
    X c = ch;
    vs_assert(is(c, value, n), "a copy is equal");
  } else if (next == 2) {
    X c = std::move(h);
    vs_assert(is(c, value, n), "a moved holder keeps its state");
  } else if (next == 3) {
    X c;
    vs_assert(c.has_value(), "a default holder holds a value");
    c = h;
    vs_assert(is(c, value, n), "an assigned holder reports the same");
    c = X(unexpected(E(7)));
    vs_assert(is(c, false, 7), "an error replaces it");
    c = X(T(9));
    vs_assert(is(c, true, 9), "a value replaces it");
  } else if (next == 4) {
    if (value) *h = T(n + 1);
    else h.error() = E(n + 1);
    vs_assert(is(h, value, n + 1), "writing through the accessor is seen");
  } else {
    unexpected<E> u{E(arg)};
    X c(u);
    vs_assert(is(c, false, n), "a named unexpected is an error too");
  }
  vs_reach("end");
}
VS_ENTRY(holder_int_long) {  // @reach=end
  holder<int, long>((int)vs_range("n", -100000, 100000));
}
VS_ENTRY(holder_long_int) {  // @reach=end
  holder<long, int>((int)vs_range("n", -100000, 100000));
}
VS_ENTRY(holder_same) {  // @reach=end
  holder<int, int>((int)vs_range("n", -100000, 100000));
}
VS_ENTRY(holder_class) {  // @reach=end
  int n = (int)vs_range("n", -100000, 100000);
  if (vs_choice("types", 2)) holder<Wide, long>(n);
  else holder<int, Init>(n);
}
VS_ENTRY(holder_void) {  // @reach=end
  using X = expected<void, long>;
  X a;
  vs_assert(a.has_value(), "a default holder holds a value");
  X b(unexpected(5));
  vs_assert(!b.has_value() && b.error() == 5, "the holder reports the error");
  X c = b;
  vs_assert(!c && c.error() == 5, "a copy is equal");
  a = std::move(c);
  vs_assert(!a && a.error() == 5, "an assigned holder reports the same");
  a = X{};
  vs_assert(!!a, "a value replaces the error");
  vs_reach("end");
}
VS_ENTRY(holder_exceptions) {  // @reach=end
  using X = expected<std::exception_ptr, std::exception_ptr>;
  std::exception_ptr p = std::make_exception_ptr(Boom{3}), z;
  bool err = vs_choice("err", 2);
  X a = err ? X(unexpected(p)) : X(p);
  vs_assert(a.has_value() != err, "an exception as a value is a value, as an error an error");
  vs_assert((err ? a.error() : *a) == p, "the exception given is the one read");
  X b = a;
  vs_assert(b.has_value() != err && (err ? b.error() : *b) == p, "a copy is equal");
  vs_reach("end");
}
VS_ENTRY(holder_objects) {  // @reach=end
  int v = symv();
  {
    using X = expected<Obj, MoveOnly>;
    bool err = vs_choice("err", 2);
    X a = err ? X(unexpected(MoveOnly(v))) : X(Obj(v));
    vs_assert(a.has_value() != err, "the holder reports what it was given");
    vs_assert((err ? a.error().v : (*a).v) == v, "the object given is the one read");
    X b = std::move(a);
    vs_assert(b.has_value() != err && (err ? b.error().v : (*b).v) == v, "a moved holder keeps its state");
    if (!err) {
      Obj r = *std::move(b);
      vs_assert(r.v == v, "the value can be moved out");
    }
  }
  vs_assert(made == gone, "each object is destroyed exactly once");
  vs_reach("end");
}
// the return place itself cannot be constructed
static bool moody;
struct Moody {
  Obj o;
  Moody() : o(1) { if (moody) throw Boom{8}; }
};
struct MoodyTrivial {
  int v;
  MoodyTrivial() : v(2) { if (moody) throw Boom{8}; }
};
template <class T> static task<T> moodybody(bool retry) {
  Mark m;
  bool again = false;
  try {
    T& t = co_await this_coro::return_place;
    vs_assert(!moody, "a construction that throws does not continue");
  } catch (Boom& b) {
    vs_assert(moody && b.tag == 8, "the exception of the constructor");
    if (!retry) throw;
    moody = false;
    again = true;
  }
  if (again) {
    T& t = co_await this_coro::return_place;
    vs_assert((void*)&t != nullptr, "a place");
  }
  co_return rvo;
}
template <class T> static Co moodyconsume(bool retry) {
  bool threw = false;
  try {
    task<T> t = moodybody<T>(retry);
    moody = vs_choice("moody", 2);
    T& r = (T&)co_await t;
    if constexpr (std::is_same_v<T, Moody>) vs_assert(r.o.v == 1 && r.o.magic == 5150, "the result object is alive");
    else vs_assert(r.v == 2, "the result object is alive");
  } catch (Boom& b) {
    threw = true;
  }
  vs_assert(threw == moody, "an exception arrives exactly if the construction failed for good");
  ++after;
}
VS_ENTRY(return_place_throws) {  // @reach=end
  bool retry = vs_choice("retry", 2);
  if (vs_choice("trivial", 2)) moodyconsume<MoodyTrivial>(retry);
  else moodyconsume<Moody>(retry);
  moody = false;
  vs_assert(after == 1 && ended_, "the awaiter continues once");
  vs_assert(made == gone, "each result object is destroyed exactly once");
  vs_assert(vs_heap_live() == 0, "no frame is left");
  vs_reach("end");
}
