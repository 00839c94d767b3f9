// BOUND: bodies of up to 3 (quick) / 4 (thorough) yields of every kind (temporary, converted value, moved local, lvalue, constant, by_ref, base of by_ref; array moved / referenced / constant, nested coroutine of the same kind, generator and channel of another element type), object / reference / const reference / move-only / int elements
// BOUND: each delivered object is only read, read twice through copies of the iterator, overwritten with an arbitrary value, or moved out; the consumer may leave at any yield; copying may throw
// BOUND: generator, channel (with suspension between the yields), in-place generator, output iterator over generator
// @must_compile
#include "seq.h"
#include <array>
#include <algorithm>
#include <kelcoro/kelcoro.hpp>
#include <kelcoro/inplace_generator.hpp>
using namespace dd;
#ifdef VS_THOROUGH
constexpr int FUEL = 4;
#else
constexpr int FUEL = 3;
#endif
static int64_t made, gone, copies, moves;
static bool copy_throws;
template <bool Copy> struct ObjT {
  int magic = 6161;
  int v;
  ObjT(int v) : v(v) { ++made; }
  ObjT(const ObjT& o) requires Copy : v(o.v) {
    vs_assert(o.magic == 6161, "copied from a live object");
    if (copy_throws) throw Boom{77};
    ++made;
    ++copies;
  }
  ObjT(ObjT&& o) noexcept : v(o.v) {
    vs_assert(o.magic == 6161, "moved from a live object");
    o.v = -1;
    ++made;
    ++moves;
  }
  ~ObjT() {
    vs_assert(magic == 6161, "an object is destroyed twice or was never constructed");
    magic = 0;
    ++gone;
  }
};
struct Base2 { int x = 3; };
using Obj = ObjT<true>;
using MoveOnly = ObjT<false>;
static int64_t alive() { return made - gone; }
// what the producer is about to yield
enum { ALIAS, COPY, FRESH };
struct Announce {
  int how = -1, v = 0;
  const void* addr = nullptr;
  int64_t copies = 0, moves = 0, alive = 0;
};
static Announce ann;
static int delivered, announced;
static int after_v;                     // value the consumer left in the object
static void announce(int how, const void* a, int v) {
  ++announced;
  ann = {how, v, a, copies, moves, alive()};
}
// the producer continues: what became of its object
template <class T> static void back(const T& local) {
  vs_assert(delivered == announced, "the value was delivered before the producer continues");
  vs_assert(local.magic == 6161, "the object of the producer is alive");
  if (ann.how == ALIAS) vs_assert(local.v == after_v, "what the consumer did is seen by the producer");
  else vs_assert(local.v == ann.v, "the object of the producer is not changed");
  vs_assert(alive() == ann.alive, "a private copy is gone when the producer continues");
}
template <class T> static int val(T& o) {
  vs_assert(o.magic == 6161, "the delivered object is alive");
  return o.v;
}
// the consumer looks at what it got; R is Yield&&
template <class R> static void look(R&& o, R&& again, const void* arrow) {
  using T = std::remove_cvref_t<R>;
  ++delivered;
  vs_assert(delivered == announced, "each yield delivers one object");
  vs_assert(&o == &again && (const void*)&o == arrow, "reading again gives the same object");
  vs_assert(val(o) == ann.v, "the delivered value is the yielded one");
  vs_assert(copies == ann.copies + (ann.how == COPY), "no extra copies are made");
  vs_assert(moves == ann.moves, "nothing is moved by the delivery");
  if (ann.how == ALIAS) vs_assert((const void*)&o == ann.addr, "the very object of the producer is delivered");
  if (ann.how == COPY) vs_assert((const void*)&o != ann.addr, "a private copy is delivered");
  if (ann.how != FRESH) vs_assert(alive() == ann.alive + (ann.how == COPY), "no other object is made");
  int act = vs_choice("act", std::is_const_v<std::remove_reference_t<R>> ? 1 : 3);
  after_v = o.v;
  if constexpr (!std::is_const_v<std::remove_reference_t<R>>) {
    if (act == 1) {
      o.v = after_v = (int)vs_sym("w", 32);
    } else if (act == 2) {
      T taken(std::move(o));
      vs_assert(taken.v == ann.v && moves == ann.moves + 1, "moving out moves the object once");
      after_v = o.v;
      vs_reach("moved");
    }
  }
}
template <class G> struct kind;
template <class Y> struct kind<generator<Y>> { static constexpr bool inplace = false; template <class Z> using other = generator<Z>; };
template <class Y> struct kind<channel<Y>> { static constexpr bool inplace = false; template <class Z> using other = channel<Z>; };
template <class Y> struct kind<inplace_generator<Y>> { static constexpr bool inplace = true; template <class Z> using other = inplace_generator<Z>; };
template <class G> constexpr bool is_chan = false;
template <class Y> constexpr bool is_chan<channel<Y>> = true;
// ---------- object elements
#define PAUSE() if constexpr (is_chan<G>) co_await Park{}
template <class G, class T> static G body(int depth) {
  while (fuel > 0) {
    --fuel;
    int k = vs_choice("yield", kind<G>::inplace ? 7 : depth ? 11 : 10);
    if (k == 0) co_return;
    int v = symv();
    if (k == 1) {
      announce(FRESH, nullptr, v);
      int64_t m = made;
      co_yield T(v);
      vs_assert(made == m + 1 + (moves - ann.moves), "one object is made for a yielded temporary");
      vs_assert(alive() == ann.alive, "the temporary is gone");
    } else if (k == 2) {
      announce(FRESH, nullptr, v);
      int64_t m = made;
      co_yield v;
      vs_assert(made == m + 1 + (moves - ann.moves), "one object is made for a converted value");
      vs_assert(alive() == ann.alive, "the temporary is gone");
    } else if (k == 3) {
      T local(v);
      announce(ALIAS, &local, v);
      co_yield std::move(local);
      back(local);
    } else if (k == 4) {
      T local(v);
      announce(ALIAS, &local, v);
      co_yield by_ref{local};
      back(local);
    } else if (k == 5) {
      if constexpr (std::is_copy_constructible_v<T>) {
        T local(v);
        announce(COPY, &local, v);
        co_yield local;
        back(local);
      }
    } else if (k == 6) {
      if constexpr (std::is_copy_constructible_v<T>) {
        const T local(v);
        announce(COPY, &local, v);
        co_yield local;
        back(local);
        vs_reach("const");
      }
    } else if constexpr (!kind<G>::inplace) {
      if (k == 7) {
        struct Watch {               // a range that checks what was done to its elements
          T e[2];
          int at = 0;
          struct it {
            Watch* w;
            T* p;
            T& operator*() const {
              announce(ALIAS, p, p->v);
              return *p;
            }
            it& operator++() {
              back(*p);
              ++p;
              return *this;
            }
            void operator++(int) { ++*this; }
            bool operator==(const it& o) const { return p == o.p; }
            using difference_type = ptrdiff_t;
            using value_type = T;
          };
          it begin() { return {this, e}; }
          it end() { return {this, e + 2}; }
        };
        Watch w{{T(v), T(v + 1)}};
        co_yield elements_of(w);     // by reference: the elements themselves
        vs_assert(w.e[1].v == after_v, "what the consumer did is seen in the spliced range");
      } else if (k == 8) {
        std::array<T, 1> a{T(v)};
        announce(ALIAS, &a[0], v);
        co_yield elements_of(std::span<T>(a));
        back(a[0]);
      } else if (k == 9) {
        std::array<T, 1> a{T(v)};
        announce(ALIAS, &a[0], v);
        co_yield elements_of(std::move(a));
        back(a[0]);
      } else
        co_yield elements_of(body<G, T>(depth - 1));
    }
    PAUSE();
  }
}
template <class G> static Co consume(G g) {
  int n = 0, limit = vs_choice("leave", 2) ? 1 : 1000;
  if constexpr (is_chan<G>) {
    for (auto it = co_await g.begin(); it != g.end(); (void)(co_await (++it))) {
      auto copy = it;
      look<decltype(*it)>(*it, *copy, (const void*)it.operator->());
      if (++n == limit) break;
    }
  } else {
    for (auto it = g.begin(); it != g.end(); ++it) {
      auto copy = it;
      look<decltype(*it)>(*it, *copy, (const void*)it.operator->());
      if (++n == limit) break;
    }
  }
  if (n == limit) vs_reach("left");
}
static void finish() {
  drive(false);
  vs_assert(alive() == 0, "every object is destroyed exactly once");
  vs_assert(vs_heap_live() == 0, "no frame is left");
  vs_reach("end");
}
VS_ENTRY(gen_objects) {  // @reach=end,left,moved,const
  fuel = FUEL;
  consume(body<generator<Obj>, Obj>(1));
  finish();
}
VS_ENTRY(gen_move_only) {  // @reach=end,left,moved
  fuel = FUEL;
  consume(body<generator<MoveOnly>, MoveOnly>(1));
  finish();
}
VS_ENTRY(chan_objects) {  // @reach=end,left,moved,const
  fuel = FUEL;
  consume(body<channel<Obj>, Obj>(1));
  finish();
}
VS_ENTRY(chan_move_only) {  // @reach=end,left,moved
  fuel = FUEL;
  consume(body<channel<MoveOnly>, MoveOnly>(1));
  finish();
}
VS_ENTRY(inplace_objects) {  // @reach=end,left,moved,const
  fuel = FUEL;
  consume(body<inplace_generator<Obj>, Obj>(0));
  finish();
}
VS_ENTRY(inplace_move_only) {  // @reach=end,left,moved
  fuel = FUEL;
  consume(body<inplace_generator<MoveOnly>, MoveOnly>(0));
  finish();
}
// ---------- reference elements: always the very object
template <class G, class T> static G refs(int depth) {      // T may be const
  while (fuel > 0) {
    --fuel;
    int k = vs_choice("yield", kind<G>::inplace ? 3 : depth ? 6 : 5);
    if (k == 0) co_return;
    int v = symv();
    if (k == 1) {
      T local(v);
      announce(ALIAS, &local, v);
      co_yield local;
      back(local);
    } else if (k == 2) {
      T local(v);
      announce(ALIAS, &local, v);
      co_yield by_ref{local};
      back(local);
    } else if constexpr (!kind<G>::inplace) {
      if (k == 3) {
        std::array<Obj, 1> a{Obj(v)};
        announce(ALIAS, &a[0], v);
        co_yield elements_of(a);
        back(a[0]);
      } else if (k == 4) {
        if constexpr (std::is_const_v<T>) {
          const std::array<Obj, 1> a{Obj(v)};
          announce(ALIAS, &a[0], v);
          co_yield elements_of(a);
          back(a[0]);
        } else if constexpr (!is_chan<G>) {
          Obj local(v);
          auto inner = [](Obj& l) -> generator<Obj> { co_yield by_ref{l}; };
          announce(ALIAS, &local, v);
          for (Obj&& o : inner(local)) co_yield o;
          back(local);
        }
      } else
        co_yield elements_of(refs<G, T>(depth - 1));
    }
    PAUSE();
  }
}
VS_ENTRY(gen_refs) {  // @reach=end,left,moved
  fuel = FUEL;
  consume(refs<generator<Obj&>, Obj>(1));
  finish();
}
VS_ENTRY(gen_const_refs) {  // @reach=end,left
  fuel = FUEL;
  consume(refs<generator<const Obj&>, const Obj>(1));
  finish();
}
VS_ENTRY(chan_refs) {  // @reach=end,left,moved
  fuel = FUEL;
  consume(refs<channel<Obj&>, Obj>(1));
  finish();
}
VS_ENTRY(chan_const_refs) {  // @reach=end,left
  fuel = FUEL;
  consume(refs<channel<const Obj&>, const Obj>(1));
  finish();
}
VS_ENTRY(inplace_refs) {  // @reach=end,left,moved
  fuel = FUEL;
  if (vs_choice("const", 2)) consume(refs<inplace_generator<const Obj&>, const Obj>(0));
  else consume(refs<inplace_generator<Obj&>, Obj>(0));
  finish();
}
// ---------- copying fails: the producer sees it and goes on
template <class G> static G picky() {
  {
    Obj a(1);
    bool threw = false;
    copy_throws = vs_choice("copy", 2);
    bool bad = copy_throws;
    try {
      announce(COPY, &a, 1);
      if (bad) --announced;
      co_yield a;
      copy_throws = false;
    } catch (Boom& b) {
      threw = true;
      copy_throws = false;
      vs_assert(b.tag == 77, "the exception of the copy");
    }
    vs_assert(threw == bad, "a failing copy reaches the producer and delivers nothing");
    vs_assert(alive() == 1, "nothing else is left");
  }
  announce(FRESH, nullptr, 9);
  co_yield Obj(9);
}
VS_ENTRY(failing_copies) {  // @reach=end
  int k = vs_choice("kind", 3);
  if (k == 0) consume(picky<generator<Obj>>());
  else if (k == 1) consume(picky<channel<Obj>>());
  else consume(picky<inplace_generator<Obj>>());
  finish();
}
// ---------- by_ref of something derived from the element
struct Der : Base2 { int y = 4; };
static Der der;
struct Two { int pad; };
struct Der2 : Two, Base2 {};
static Der2 der2;
template <class G> static G bases() {
  co_yield by_ref{der};
  vs_assert(der.x == 31, "what the consumer did is seen by the producer");
  co_yield by_ref{der2};
  vs_assert(der2.x == 32, "what the consumer did is seen by the producer");
  int n = 0;
  Base2 b{8};
  co_yield std::move(b);
  vs_assert(b.x == 33, "what the consumer did is seen by the producer");
}
VS_ENTRY(base_of_ref) {  // @reach=end
  int k = vs_choice("kind", 3), n = 30;
  Base2* want[3] = {&der, &der2, nullptr};
  auto use = [&](auto&& g) {
    int i = 0;
    for (Base2&& b : g) {
      vs_assert(i == 2 || &b == want[i], "the element is the base of the very object");
      ++i;
      b.x = ++n;
    }
    vs_assert(i == 3, "all are delivered");
  };
  if (k == 0) use(bases<generator<Base2>>());
  else if (k == 1) use(bases<inplace_generator<Base2>>());
  else
    [](Base2** want) -> Co {
      auto c = bases<channel<Base2>>();
      int i = 0;
      co_foreach(Base2&& b, c) {
        vs_assert(i == 2 || &b == want[i], "the element is the base of the very object");
        ++i;
        b.x = 30 + i;
      }
      vs_assert(i == 3, "all are delivered");
    }(want);
  vs_assert(der.x == 31 && der2.x == 32, "written");
  vs_assert(vs_heap_live() == 0, "no frame is left");
  vs_reach("end");
}
// ---------- output iterator
static int written[4], nwritten;
template <class G> static G sink(int mode) {
  int x[4] = {-1, -1, -1, -1};
  for (int i = 0; i < 4; i++) {
    if (mode == 0) co_yield by_ref{x[i]};
    else if (mode == 1) co_yield std::move(x[i]);
    else {
      int t = x[i];
      co_yield elements_of([](int& t) -> G { co_yield by_ref{t}; }(t));
      x[i] = t;
    }
    written[nwritten++] = x[i];
  }
}
static generator<int&> refsink() {
  int x = 0;
  while (nwritten < 4) {
    co_yield x;
    written[nwritten++] = x;
  }
}
VS_ENTRY(output_iterator) {  // @reach=end
  int mode = vs_choice("mode", 4), how = vs_choice("how", 4), n = vs_choice("n", 4);
  int in[4];
  for (int i = 0; i < 4; i++) in[i] = (int)vs_sym("in", 32);
  auto use = [&](auto g) {
    auto o = g.begin().out();
    if (how == 0) std::copy(in, in + n, o);
    else if (how == 1)
      for (int i = 0; i < n; i++) {
        *o++ = in[i];
        vs_assert(nwritten == i + 1, "one step per element");
      }
    else
      for (int i = 0; i < n; i++) {
        *o = in[i];
        if (how == 2) ++o;
        else o++;
      }
  };
  if (mode == 3) use(refsink());
  else use(sink<generator<int>>(mode));
  vs_assert(nwritten == n, "each written element is taken by the producer");
  for (int i = 0; i < n; i++) vs_assert(written[i] == in[i], "the producer sees what was written");
  vs_assert(vs_heap_live() == 0, "no frame is left");
  vs_reach("end");
}
// ---------- another element type inside: conversions are made once per element
static channel<int> ints(int a, int b) {
  co_yield a;
  co_await Park{};
  co_yield b;
}
static channel<Obj> convert(int a, int b) {
  announce(FRESH, nullptr, a);
  co_yield elements_of(ints(a, b));
}
static channel<long> widen(int a, int b) {
  co_yield elements_of(ints(a, b));
}
VS_ENTRY(conversions) {  // @reach=end
  int a = symv(), b = symv();
  if (vs_choice("type", 2)) {
    [](int a, int b) -> Co {
      int n = 0;
      auto c = convert(a, b);
      co_foreach(Obj&& o, c) {
        vs_assert(val(o) == (n ? b : a) && alive() == 1 && copies == 0 && moves == 0, "one object per element");
        ++n;
      }
      vs_assert(n == 2, "all are delivered");
    }(a, b);
  } else {
    [](int a, int b) -> Co {
      int n = 0;
      auto c = widen(a, b);
      co_foreach(long o, c) {
        vs_assert(o == (long)(n ? b : a), "the converted value");
        ++n;
      }
      vs_assert(n == 2, "all are delivered");
    }(a, b);
  }
  finish();
}
