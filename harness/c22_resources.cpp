// BOUND: arithmetic: every frame size 1..2^38 (symbolic), resource types of size 1,3,8,24,40,48 and alignment 1,2,4,8,16, trivially destructible or not, default constructed or passed
// BOUND: coroutines: generator, channel, task, job, async_task, logical_thread and the *_r / pmr forms; finished, dropped before the start, dropped half way; frames with 1..200 bytes of locals; parameters that throw while being copied; failing allocations
// @must_compile
#include "seq.h"
#include <kelcoro/kelcoro.hpp>
using namespace dd;
// ---------- the arithmetic of the allocation, for every frame size
alignas(16) static char area[64];                           // identity only, never accessed at symbolic offsets
static uint64_t asked, given_back;
static void* given_ptr;
static const void* placed_at;       // where the resource was moved to
static const void* used_from;       // the object in the frame deallocate was called on, or which it was moved from before
static ghost made, gone;
static int allocs, frees;
static bool in_area(const void* p) { return (uint64_t)p - (uint64_t)area < (1ull << 39); }
template <int Size, int Align, bool Triv> struct Sized;
// objects whose memory is never touched: their address may be symbolic
template <int Size, int Align> struct alignas(Align) Sized<Size, Align, true> {
  char pad[Size];
  Sized() {}
  Sized(Sized&& o) noexcept {
    if (in_area(this)) placed_at = this;
    else if (in_area(&o)) used_from = &o;
  }
  void* allocate(size_t n) {
    asked = n;
    ++allocs;
    return area;
  }
  void deallocate(void* p, size_t n) noexcept {
    given_ptr = p;
    given_back = n;
    if (in_area(this)) used_from = this;
    ++frees;
  }
};
template <int Size, int Align> struct alignas(Align) Sized<Size, Align, false> {
  char pad[Size];
  Sized() { ++made; }
  Sized(Sized&& o) noexcept {
    ++made;
    if (in_area(this)) placed_at = this;
    else if (in_area(&o)) used_from = &o;
  }
  ~Sized() { ++gone; }
  void* allocate(size_t n) {
    asked = n;
    ++allocs;
    return area;
  }
  void deallocate(void* p, size_t n) noexcept {
    given_ptr = p;
    given_back = n;
    ++frees;
  }
};
template <int Size, int Align, bool Triv, bool Passed> static void arith() {
  using R = Sized<Size, Align, Triv>;
  static_assert(memory_resource<R> && alignof(R) == Align && std::is_trivially_destructible_v<R> == Triv);
  using O = overload_new_delete<R>;
  uint64_t sz = (uint64_t)vs_range("frame", 1, 1ll << 38);
  {
    void* p;
    if constexpr (Passed) {
      with_resource<R> w{};
      int other = 0;
      p = O::operator new(sz, other, w);
    } else
      p = O::operator new(sz);
    VS_ASSERTM(allocs == 1 && p == area, "taken from the resource, once");
    uint64_t at = (uint64_t)placed_at - (uint64_t)area;
    VS_ASSERTM(at >= sz, "the stored resource does not overlap the frame");
    VS_ASSERTM(at % Align == 0, "the stored resource is aligned");
    VS_ASSERTM(at + sizeof(R) <= asked, "no more memory is used than was requested");
    VS_ASSERTM(asked >= sz, "at least the frame is requested");
    O::operator delete(p, sz);
    VS_ASSERTM(frees == 1 && given_ptr == p && given_back == asked, "given back once with the same pointer and size");
    VS_ASSERTM(used_from == placed_at, "by the resource stored with the frame");
  }
  VS_ASSERTM(made == gone, "resource objects are constructed and destroyed in pairs");
  vs_reach("end");
}
VS_ENTRY(res_arith_1_1) { arith<1, 1, true, true>(); }             // @reach=end
VS_ENTRY(res_arith_1_1_n) { arith<1, 1, false, false>(); }         // @reach=end
VS_ENTRY(res_arith_3_1) { arith<3, 1, false, true>(); }            // @reach=end
VS_ENTRY(res_arith_3_1_d) { arith<3, 1, true, false>(); }          // @reach=end
VS_ENTRY(res_arith_2_2) { arith<2, 2, false, true>(); }            // @reach=end
VS_ENTRY(res_arith_12_4) { arith<12, 4, true, true>(); }           // @reach=end
VS_ENTRY(res_arith_8_8) { arith<8, 8, true, true>(); }             // @reach=end
VS_ENTRY(res_arith_24_8) { arith<24, 8, false, true>(); }          // @reach=end
VS_ENTRY(res_arith_40_8) { arith<40, 8, false, false>(); }         // @reach=end
VS_ENTRY(res_arith_48_16) { arith<48, 16, false, true>(); }        // @reach=end
VS_ENTRY(res_arith_16_16) { arith<16, 16, true, false>(); }        // @reach=end
struct Nothing {
  void* allocate(size_t n) {
    asked = n;
    ++allocs;
    return area;
  }
  void deallocate(void* p, size_t n) noexcept {
    given_ptr = p;
    given_back = n;
    ++frees;
  }
};
template <bool Passed> static void arith_empty() {
  using O = overload_new_delete<Nothing>;
  uint64_t sz = (uint64_t)vs_range("frame", 1, 1ll << 38);
  void* p;
  if constexpr (Passed) {
    with_resource<Nothing> w{};
    p = O::operator new(sz, w);
  } else
    p = O::operator new(sz);
  VS_ASSERT(allocs == 1 && p == area && asked >= sz);
  O::operator delete(p, sz);
  VS_ASSERT(frees == 1 && given_ptr == p && given_back == asked);
  vs_reach("end");
}
VS_ENTRY(res_arith_empty) { arith_empty<true>(); }      // @reach=end
VS_ENTRY(res_arith_empty_d) { arith_empty<false>(); }   // @reach=end
// ---------- coroutines
struct Rec {
  void* p;
  size_t n;
  int id;
  bool live;
};
static Rec recs[16];
static int nrec, failing;
static void* take(size_t n, int id) {
  if (failing && vs_choice("fail", 2)) {
    failing = 0;
    throw Boom{77};
  }
  VS_ASSERT(nrec < 16 && n > 0);
  void* p = ::operator new(n);
  recs[nrec++] = {p, n, id, true};
  return p;
}
static void give(void* p, size_t n, int id) {
  for (int i = 0; i < nrec; ++i)
    if (recs[i].live && recs[i].p == p) {
      VS_ASSERTM(recs[i].n == n, "given back with the size it was taken with");
      VS_ASSERTM(recs[i].id == id, "given back to the resource it was taken from");
      recs[i].live = false;
      ::operator delete(p);
      return;
    }
  VS_ASSERTM(0, "given back memory which was not taken (or twice)");
}
static int taken_from(int id) {
  int n = 0;
  for (int i = 0; i < nrec; ++i) n += recs[i].id == id;
  return n;
}
static void all_back() {
  for (int i = 0; i < nrec; ++i) VS_ASSERTM(!recs[i].live, "the frame is given back");
  VS_ASSERTM(live == 0 && vs_heap_live() == 0, "nothing leaks");
  VS_ASSERTM(made == gone, "resource objects are constructed and destroyed in pairs");
}
// resource classes
struct Empty {
  void* allocate(size_t n) { return take(n, 1); }
  void deallocate(void* p, size_t n) noexcept { give(p, n, 1); }
};
struct Arena {            // used through a pointer
  int id;
  void* allocate(size_t n) { return take(n, id); }
  void deallocate(void* p, size_t n) noexcept { give(p, n, id); }
};
struct Small {
  unsigned char id = 3;
  Small() = default;
  Small(int i) : id((unsigned char)i) {}
  void* allocate(size_t n) { return take(n, id); }
  void deallocate(void* p, size_t n) noexcept { give(p, n, id); }
};
struct Owning {           // non trivial: a moved-from one cannot be used
  int magic = 99;
  int id = 4;
  Owning() { ++made; }
  Owning(int i) : id(i) { ++made; }
  Owning(const Owning& o) : magic(o.magic), id(o.id) {
    VS_ASSERT(magic == 99);
    ++made;
  }
  Owning(Owning&& o) noexcept : magic(o.magic), id(std::exchange(o.id, -1)) {
    VS_ASSERT(magic == 99);
    ++made;
  }
  ~Owning() {
    VS_ASSERTM(magic == 99, "destroyed once");
    magic = 0;
    ++gone;
  }
  void* allocate(size_t n) {
    VS_ASSERTM(magic == 99 && id >= 0, "a live resource is used");
    return take(n, id);
  }
  void deallocate(void* p, size_t n) noexcept {
    VS_ASSERTM(magic == 99 && id >= 0, "a live resource is used");
    give(p, n, id);
  }
};
struct Late {             // trivial, and keeps books after the memory is gone
  int id;
  int* balance;
  Late(int i, int* b) : id(i), balance(b) {}
  void* allocate(size_t n) {
    void* p = take(n, id);
    ++*balance;
    return p;
  }
  void deallocate(void* p, size_t n) noexcept {
    give(p, n, id);
    --*balance;
  }
};
static_assert(std::is_trivially_destructible_v<Late>);
struct alignas(16) Wide : Owning {
  using Owning::Owning;
  char pad[40] = {};
};
template <int N> struct Pad {
  unsigned char b[N];
};
// coroutine bodies
template <class R, int N> static generator<int> gen(int k, with_resource<R>) {
  Live l;
  Pad<N> p{};
  for (int i = 0; i < k; ++i) {
    p.b[N - 1] = (unsigned char)i;
    co_yield int(p.b[N - 1]);
  }
}
template <class R, int N> static channel<int> chan(int k, with_resource<R>) {
  Live l;
  Pad<N> p{};
  for (int i = 0; i < k; ++i) {
    p.b[N - 1] = (unsigned char)i;
    co_yield int(p.b[N - 1]);
  }
}
template <class R, int N> static task<int> tsk(int k, with_resource<R>) {
  Live l;
  Pad<N> p{};
  p.b[N - 1] = (unsigned char)k;
  co_await std::suspend_never{};
  if (k == 2) throw Boom{2};
  co_return p.b[N - 1];
}
template <class R, int N> static async_task<int> atsk(int k, with_resource<R>) {
  Live l;
  Pad<N> p{};
  p.b[N - 1] = (unsigned char)k;
  if (k == 2) throw Boom{2};
  co_return p.b[N - 1];
}
template <class R, int N> static logical_thread lth(int k, with_resource<R>) {
  Live l;
  Pad<N> p{};
  p.b[N - 1] = (unsigned char)k;
  co_await std::suspend_never{};
}
static ghost jobs_run;
template <class R, int N> static job jb(int k, with_resource<R>) {
  Live l;
  Pad<N> p{};
  p.b[N - 1] = (unsigned char)k;
  if (k == 1) co_await Park{};
  ++jobs_run;
}
// runs one coroutine of kind 'kind' with resource w in way 'k'
template <class R, int N, class W> static void use(int kind, int k, W&& w) {
  switch (kind) {
    case 0: {
      auto g = gen<R, N>(k, w);
      int n = vs_choice("take", 3);
      int i = 0;
      if (n)
        for (int x : g) {
          VS_ASSERT(x == i++);
          if (i == n) break;
        }
      break;
    }
    case 1: {
      auto c = chan<R, N>(k, w);
      if (vs_choice("take", 2))
        [](channel<int>& c) -> Co {
          int i = 0;
          co_foreach(int x, c) VS_ASSERT(x == i++);
        }(c);
      break;
    }
    case 2: {
      auto t = tsk<R, N>(k, w);
      switch (vs_choice("use", 3)) {
        case 0: break;
        case 1:
          try {
            VS_ASSERT(t.get() == k);
          } catch (Boom&) {
            VS_ASSERT(k == 2);
          }
          break;
        case 2: t.start_and_detach(); break;
      }
      break;
    }
    case 3: {
      auto t = atsk<R, N>(k, w);
      if (vs_choice("detach", 2)) t.detach();
      else
        try {
          VS_ASSERT(std::move(t).get() == k);
        } catch (Boom&) {
          VS_ASSERT(k == 2);
        }
      break;
    }
    case 4: {
      auto t = lth<R, N>(k, w);
      if (vs_choice("detach", 2)) t.detach();
      break;
    }
    case 5: {
      jb<R, N>(k, w);
      if (parked) {
        auto h = std::exchange(parked, nullptr);
        if (vs_choice("kill", 2)) h.destroy();
        else h.resume();
      }
      break;
    }
  }
}
template <class R, int N> static void sized(int kind, int k, auto&& make, int id) {
  int before = taken_from(id);
  int total = nrec;
  use<R, N>(kind, k, make());
  VS_ASSERTM(taken_from(id) == before + 1, "the frame is taken from exactly the given resource");
  VS_ASSERT(nrec == total + 1);
}
template <class R> static void all_kinds(auto&& make, int id) {
  int kind = vs_choice("kind", 6), k = vs_choice("k", 3);
  switch (vs_choice("locals", 3)) {
    case 0: sized<R, 1>(kind, k, make, id); break;
    case 1: sized<R, 23>(kind, k, make, id); break;
    case 2: sized<R, 200>(kind, k, make, id); break;
  }
  all_back();
  vs_reach("end");
}
VS_ENTRY(res_empty) { all_kinds<Empty>([] { return with_resource<Empty>{}; }, 1); }          // @reach=end
VS_ENTRY(res_small) { all_kinds<Small>([] { return with_resource<Small>{7}; }, 7); }         // @reach=end
VS_ENTRY(res_owning) { all_kinds<Owning>([] { return with_resource<Owning>{8}; }, 8); }      // @reach=end
VS_ENTRY(res_wide) { all_kinds<Wide>([] { return with_resource<Wide>{9}; }, 9); }            // @reach=end
VS_ENTRY(res_late) {  // @reach=end
  static int balance;
  all_kinds<Late>([] { return with_resource<Late>{10, &balance}; }, 10);
  VS_ASSERT(balance == 0);
}
VS_ENTRY(res_pointer) {  // @reach=end
  static Arena a{11};
  all_kinds<chunk_from<Arena>>([]() -> with_resource<chunk_from<Arena>> { return a; }, 11);
}
// two resources of one type at once: each frame goes back to its own
VS_ENTRY(res_two) {  // @reach=end
  Arena a{20}, b{21};
  with_resource<chunk_from<Arena>> wa(a), wb(b);
  {
    auto g1 = gen<chunk_from<Arena>, 8>(2, wa);
    auto g2 = gen<chunk_from<Arena>, 8>(2, wb);
    auto g3 = gen<Owning, 8>(2, with_resource<Owning>{22});
    auto g4 = gen<Owning, 8>(2, with_resource<Owning>{23});
    VS_ASSERT(taken_from(20) == 1 && taken_from(21) == 1 && taken_from(22) == 1 && taken_from(23) == 1);
    switch (vs_choice("order", 4)) {
      case 0: std::swap(g1, g2); break;
      case 1: g1 = std::move(g2); break;
      case 2: g3.clear(); break;
      case 3: g2 = std::move(g4); break;
    }
    for (int x : g1) (void)x;
  }
  all_back();
  vs_reach("end");
}
// a resource named by the type, default constructed for each frame; and the plain type made from it
static generator_r<int, Small> typed_gen(int k) {
  Live l;
  for (int i = 0; i < k; ++i) co_yield int(i);
}
static task_r<int, Owning> typed_task(int k) {
  Live l;
  co_return k;
}
static channel_r<int, Wide> typed_chan(int k) {
  Live l;
  for (int i = 0; i < k; ++i) co_yield int(i);
}
static async_task_r<int, Empty> typed_async(int k) {
  Live l;
  co_return k;
}
// (clang 18 without optimisation keeps the return object in the frame until the first suspension: suspend before the end)
static job_r<Owning> typed_job() {
  Live l;
  co_await Park{};
  ++jobs_run;
  co_return;
}
static logical_thread_r<Small> typed_lt() {
  Live l;
  co_return;
}
VS_ENTRY(res_typed) {  // @reach=end
  switch (vs_choice("kind", 6)) {
    case 0: {
      generator<int> g = typed_gen(2);
      int i = 0;
      for (int x : g) VS_ASSERT(x == i++);
      VS_ASSERT(i == 2 && taken_from(3) == 1);
      break;
    }
    case 1: {
      task<int> t = typed_task(5);
      VS_ASSERT(taken_from(4) == 1);
      if (vs_choice("get", 2)) VS_ASSERT(t.get() == 5);
      break;
    }
    case 2: {
      auto c = typed_chan(2);
      VS_ASSERT(taken_from(4) == 1);
      [](channel<int>& c) -> Co {
        int i = 0;
        co_foreach(int x, c) VS_ASSERT(x == i++);
        VS_ASSERT(i == 2);
      }(c);
      break;
    }
    case 3: {
      auto t = typed_async(6);
      VS_ASSERT(taken_from(1) == 1);
      VS_ASSERT(std::move(t).get() == 6);
      break;
    }
    case 4: {
      typed_job();
      std::exchange(parked, nullptr).resume();
      VS_ASSERT(jobs_run == 1 && taken_from(4) == 1);
      break;
    }
    case 5: {
      logical_thread t = typed_lt();
      VS_ASSERT(taken_from(3) == 1);
      t.join();
      break;
    }
  }
  VS_ASSERT(nrec == 1);
  all_back();
  vs_reach("end");
}
// without a resource, and with the default one, nothing is taken from others
static generator<int> plain_gen() { co_yield 1; }
static generator<int> default_gen(with_default_resource) { co_yield 1; }
static task<int> plain_task(int) { co_return 1; }
static generator_r<int, new_delete_resource> nd_gen(int k) {
  for (int i = 0; i < k; ++i) co_yield int(i);
}
static task_r<int, new_delete_resource> nd_task(int k) { co_return k; }
VS_ENTRY(res_none) {  // @reach=end
  {
    auto g = nd_gen(2);
    auto t = nd_task(4);
    VS_ASSERTM(vs_heap_live() == 2 && nrec == 0, "the heap is used");
    int i = 0;
    for (int x : g) VS_ASSERT(x == i++);
    VS_ASSERT(i == 2 && t.get() == 4);
  }
  all_back();
  {
    auto g = plain_gen();
    auto h = default_gen(with_default_resource{});
    auto t = plain_task(1);
    VS_ASSERTM(vs_heap_live() == 3 && nrec == 0, "the default heap is used");
  }
  all_back();
  vs_reach("end");
}
// member functions and lambdas: the resource is the last parameter there too
struct Host {
  int v = 3;
  generator<int> numbers(int k, with_resource<Small>) {
    for (int i = 0; i < k; ++i) co_yield int(v + i);
  }
};
VS_ENTRY(res_member) {  // @reach=end
  Host h;
  {
    auto g = h.numbers(2, 12);
    VS_ASSERT(taken_from(12) == 1);
    int i = 0;
    for (int x : g) VS_ASSERT(x == 3 + i++);
    auto l = [](int a, const with_resource<Owning>&) -> task<int> { co_return a; };
    with_resource<Owning> w{13};
    auto t = l(5, w);
    VS_ASSERT(taken_from(13) == 1);
    VS_ASSERT(t.get() == 5);
    auto l2 = [](int a, with_resource<Owning>&) -> task<int> { co_return a; };
    with_resource<Owning> w2{14};
    auto t2 = l2(6, w2);
    VS_ASSERT(taken_from(14) == 1 && t2.get() == 6);
  }
  all_back();
  vs_reach("end");
}
// failing allocations reach the caller, nothing leaks
VS_ENTRY(res_fail) {  // @reach=failed,made
  failing = 1;
  bool failed = false;
  int kind = vs_choice("kind", 6);
  try {
    switch (vs_choice("res", 3)) {
      case 0: use<Owning, 8>(kind, 1, with_resource<Owning>{15}); break;
      case 1: use<Empty, 8>(kind, 1, with_resource<Empty>{}); break;
      case 2: use<Wide, 8>(kind, 1, with_resource<Wide>{16}); break;
    }
  } catch (Boom& b) {
    failed = true;
    VS_ASSERTM(b.tag == 77, "the resource's own exception");
  }
  VS_ASSERTM(failed == (nrec == 0), "the failure reaches the caller");
  all_back();
  vs_reach(failed ? "failed" : "made");
}
// a parameter that throws while it is copied into the frame: the memory is given back
struct Thrower {
  int arm;
  Live l;
  Thrower(int a) : arm(a) {}
  Thrower(const Thrower& o) : arm(o.arm) {
    if (arm) throw Boom{5};
  }
  Thrower(Thrower&& o) : arm(o.arm) {
    if (arm) throw Boom{5};
  }
};
template <class R> static task<int> with_param(Thrower t, with_resource<R>) { co_return t.arm; }
VS_ENTRY(res_param_throws) {  // @reach=threw,ok
  bool threw = false;
  int arm = vs_choice("arm", 2);
  int which = vs_choice("res", 3);
  try {
    Thrower t(0);
    t.arm = 0;
    auto call = [&](auto w) {
      auto x = with_param<std::remove_cvref_t<decltype(w.resource)>>(Thrower(arm), w);
      VS_ASSERT(x.get() == 0);
    };
    if (which == 0) call(with_resource<Owning>{17});
    else if (which == 1) call(with_resource<Empty>{});
    else call(with_resource<Small>{18});
  } catch (Boom&) {
    threw = true;
  }
  VS_ASSERT(threw == !!arm && nrec == 1);
  all_back();
  vs_reach(threw ? "threw" : "ok");
}
// a resource that cannot be made: the caller sees it, nothing was taken
struct Refusing {
  int id;
  Owning inner{55};
  Refusing(int i, bool refuse) : id(i) {
    if (refuse) throw Boom{i};
  }
  Refusing(Refusing&&) noexcept = default;
  Refusing(const Refusing& o) : id(o.id), inner(o.inner) {
    if (refuse_copy) throw Boom{id};
  }
  static inline bool refuse_copy = false;
  void* allocate(size_t n) { return take(n, id); }
  void deallocate(void* p, size_t n) noexcept { give(p, n, id); }
};
static task<int> refused(Live, with_resource<Refusing>) { co_return 4; }
VS_ENTRY(res_cannot_be_made) {  // @reach=threw,ok
  int how = vs_choice("how", 4), got = 0;
  bool threw = false;
  try {
    if (how < 2)
      got = refused(Live{}, with_resource<Refusing>{26, how == 1}).get();
    else {
      with_resource<Refusing> w(26, false);
      Refusing::refuse_copy = how == 3;
      got = refused(Live{}, w).get();
    }
  } catch (Boom& b) {
    threw = true;
    VS_ASSERT(b.tag == 26);
  }
  VS_ASSERTM(threw == (how & 1), "the failure reaches the caller");
  VS_ASSERT(got == (threw ? 0 : 4) && nrec == !threw);
  all_back();
  vs_reach(threw ? "threw" : "ok");
}
// awaiting operations inside a coroutine with a resource
static task<int> asks(with_resource<Small>) {
  std::coroutine_handle<> h = co_await this_coro::handle;
  VS_ASSERT(h && !h.done());
  auto hash = co_await this_coro::operation_hash;
  VS_ASSERT(hash == co_await this_coro::operation_hash);
  int& r = co_await this_coro::return_place;
  r = 31;
  co_return rvo;
}
VS_ENTRY(res_asks) {  // @reach=end
  {
    auto outer = []() -> Co {
      auto t = asks(19);
      int v = co_await t;
      VS_ASSERT(v == 31);
    };
    outer();
  }
  VS_ASSERT(taken_from(19) == 1);
  all_back();
  vs_reach("end");
}
// the resource outlives nothing else: frames freed on another thread go back to the same resource
VS_ENTRY(res_other_thread) {  // @reach=end
  {
    auto g = std::make_unique<generator<int>>(gen<Owning, 8>(2, with_resource<Owning>{24}));
    std::thread t([g = std::move(g)]() mutable {
      for (int x : *g) (void)x;
      g.reset();
    });
    t.join();
  }
  all_back();
  vs_reach("end");
}
