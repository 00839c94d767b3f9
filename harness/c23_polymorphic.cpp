// BOUND: every history of 5 operations (thorough: 7) of {pass_resource, set_default_resource (two custom resources or new/delete), create, destroy oldest / newest} with up to 3 live coroutines; coroutine kinds generator, channel, task, async_task, job, logical_thread
// BOUND: two threads: passing, creating, changing the default and freeing on either, every interleaving
// @must_compile
#include "seq.h"
#include <kelcoro/kelcoro.hpp>
using namespace dd;
struct Rec {
  void* p;
  size_t n, a;
  int id;
  ghost live;
};
constexpr int MAXR = 16;
static Rec recs[MAXR];
static ghost nrec;
static int raw_used;
struct Pool final : std::pmr::memory_resource {
  int id;
  ghost taken, out;
  explicit Pool(int id) : id(id) {}
  void* do_allocate(size_t n, size_t a) override {
    VS_ASSERTM(a >= coroframe_align() && a % coroframe_align() == 0, "at least the frame alignment is requested");
    int i = (int)nrec++;
    VS_ASSERT(i < MAXR);
    recs[i].p = ::operator new(n);
    recs[i].n = n;
    recs[i].a = a;
    recs[i].id = id;
    ++recs[i].live;
    ++taken;
    ++out;
    return recs[i].p;
  }
  void do_deallocate(void* p, size_t n, size_t a) override {
    for (int i = 0; i < MAXR && i < nrec; ++i)
      if (recs[i].live && recs[i].p == p) {
        VS_ASSERTM(recs[i].id == id, "returned to the resource it was taken from");
        VS_ASSERTM(recs[i].n == n && recs[i].a == a, "with the same size and alignment");
        --recs[i].live;
        --out;
        ::operator delete(p);
        return;
      }
    VS_ASSERTM(0, "returned memory was taken from this resource");
  }
  bool do_is_equal(const std::pmr::memory_resource& o) const noexcept override { return this == &o; }
};
static dd::pmr::generator<int> gen(int k) {
  Live l;
  for (int i = 0; i < k; ++i) co_yield int(i);
}
// ---- one thread, every history
static void history(int ops, int max_live, bool iterate) {
  {
    Pool a(1), b(2);
    std::pmr::memory_resource* all[3] = {&a, &b, std::pmr::new_delete_resource()};
    VS_ASSERTM(&dd::pmr::get_default_resource() == std::pmr::new_delete_resource(), "the default is new/delete at first");
    int passed = -1, def = 2;
    struct Live_ {
      std::optional<generator<int>> g;
      int from;
    } g[4];
    int n = 0;
    int64_t expect[3] = {};
    for (int i = 0; i < ops; ++i) {
      switch (vs_choice("op", 5)) {
        case 0: {
          passed = vs_choice("pass", 2);
          dd::pmr::pass_resource(*all[passed]);
          break;
        }
        case 1: {
          int k = vs_choice("def", 3);
          auto& old = dd::pmr::set_default_resource(*all[k]);
          VS_ASSERTM(&old == all[def], "the previous default is returned");
          def = k;
          VS_ASSERT(&dd::pmr::get_default_resource() == all[def]);
          break;
        }
        case 2: {
          vs_assume(n < max_live);
          int from = passed >= 0 ? passed : def;
          passed = -1;
          g[n].g.emplace(gen(2));
          g[n].from = from;
          ++expect[from];
          ++n;
          VS_ASSERTM(a.taken == expect[0] && b.taken == expect[1], "the frame comes from the passed resource, else from the default");
          break;
        }
        case 3:
          vs_assume(n > 0);
          {
            --n;
            if (iterate)
              for (int x : *g[n].g) (void)x;
            g[n].g.reset();
          }
          break;
        case 4:
          vs_assume(n > 1);     // the oldest of several
          {
            --n;
            g[0].g.reset();
            for (int j = 0; j < n; ++j) {
              g[j].g = std::move(g[j + 1].g);
              g[j].from = g[j + 1].from;
            }
            g[n].g.reset();
          }
          break;
      }
      int64_t out[3] = {};
      for (int j = 0; j < n; ++j) ++out[g[j].from];
      VS_ASSERTM(a.out == out[0] && b.out == out[1], "each frame is returned to where it was taken from");
    }
  }
  VS_ASSERT(live == 0 && vs_heap_live() == 0);
  vs_reach("end");
}
VS_ENTRY(poly_history) { history(5, 3, false); }     // @reach=end
VS_ENTRY(poly_history_long) { history(7, 3, false); }     // @thorough @reach=end @ttime=900
VS_ENTRY(poly_history_run) { history(4, 2, true); }  // @reach=end
// ---- every kind of coroutine
static dd::pmr::channel<int> chan() {
  Live l;
  co_yield 1;
}
static dd::pmr::task<int> tsk() {
  Live l;
  co_return 5;
}
static dd::pmr::async_task<int> atsk() {
  Live l;
  co_return 6;
}
static logical_thread_r<dd::pmr::polymorphic_resource> lt() {
  Live l;
  co_return;
}
static ghost ran;
static job_r<dd::pmr::polymorphic_resource> jb() {
  Live l;
  co_await Park{};
  ++ran;
}
static generator<int> explicit_gen(with_resource<dd::pmr::polymorphic_resource>) { co_yield 1; }
VS_ENTRY(poly_kinds) {  // @reach=end
  {
    Pool a(1), d(2);
    bool pass = vs_choice("pass", 2), chg = vs_choice("change", 2);
    dd::pmr::set_default_resource(d);
    if (pass) dd::pmr::pass_resource(a);
    Pool& from = pass ? a : d;
    auto taken = [&] {
      VS_ASSERTM(from.taken == 1 && a.taken + d.taken == 1, "taken from the expected resource");
      if (chg) {
        dd::pmr::pass_resource(d);
        dd::pmr::set_default_resource(*std::pmr::new_delete_resource());
      }
    };
    switch (vs_choice("kind", 7)) {
      case 0: {
        auto g = gen(2);
        taken();
        int i = 0;
        for (int x : g) VS_ASSERT(x == i++);
        break;
      }
      case 1: {
        auto c = chan();
        taken();
        [](channel<int>& c) -> Co { co_foreach(int x, c) VS_ASSERT(x == 1); }(c);
        break;
      }
      case 2: {
        auto t = tsk();
        taken();
        if (vs_choice("run", 2)) VS_ASSERT(t.get() == 5);
        break;
      }
      case 3: {
        auto t = atsk();
        taken();
        VS_ASSERT(std::move(t).get() == 6);
        break;
      }
      case 4: {
        jb();
        taken();
        std::exchange(parked, nullptr).resume();
        break;
      }
      case 6: {
        auto t = lt();
        taken();
        if (vs_choice("join", 2)) t.join();
        break;
      }
      case 5: {
        auto g = explicit_gen(dd::pmr::polymorphic_resource(from));
        taken();
        break;
      }
    }
    VS_ASSERT(a.out == 0 && d.out == 0);
  }
  VS_ASSERT(live == 0 && vs_heap_live() == 0);
  vs_reach("end");
}
// ---- threads
// passing concerns the passing thread only
VS_ENTRY(poly_thread_pass) {  // @reach=end
  {
    Pool a(1), b(2), d(3);
    dd::pmr::set_default_resource(d);
    static int go;
    bool pass_b = vs_choice("pass_b", 2);
    std::optional<generator<int>> other;
    dd::pmr::pass_resource(a);
    std::thread t([&] {
      if (pass_b) dd::pmr::pass_resource(b);
      other.emplace(gen(1));
      VS_ASSERTM((pass_b ? b : d).taken == 1 && a.taken <= 1, "passing on another thread has no effect here");
    });
    {
      auto mine = gen(1);
      VS_ASSERTM(a.taken == 1, "what this thread passed is used");
    }
    t.join();
    VS_ASSERT(a.taken == 1 && a.out == 0 && b.taken == pass_b && d.taken == !pass_b);
    auto mine2 = gen(1);
    VS_ASSERTM(d.taken == !pass_b + 1, "one coroutine only");
    other.reset();      // freed on this thread
    VS_ASSERT(b.out == 0 && d.out == 1);
  }
  VS_ASSERT(live == 0 && vs_heap_live() == 0);
  vs_reach("end");
}
// a frame dies on another thread, the default changes meanwhile
VS_ENTRY(poly_thread_default) {  // @reach=end,a,b
  {
    Pool a(1), b(2);
    dd::pmr::set_default_resource(a);
    auto g = std::make_unique<generator<int>>(gen(1));
    VS_ASSERT(a.taken == 1);
    std::thread t([&a, &b, g = std::move(g)]() mutable {
      auto h = gen(1);
      VS_ASSERTM(a.taken + b.taken == 2, "the old or the new default");
      vs_reach(b.taken ? "b" : "a");
      g.reset();
    });
    auto& old = dd::pmr::set_default_resource(b);
    VS_ASSERT(&old == &a);
    t.join();
    VS_ASSERT(a.out == 0 && b.out == 0);
  }
  VS_ASSERT(live == 0 && vs_heap_live() == 0);
  vs_reach("end");
}
// a resource made by one thread and installed as the default is ready to be used by another one
VS_ENTRY(poly_thread_publish) {  // @reach=end,old,made
  {
    static Pool first(1);
    static std::optional<Pool> made;
    dd::pmr::set_default_resource(first);
    std::thread t([] {
      made.emplace(2);
      dd::pmr::set_default_resource(*made);
    });
    int how = vs_choice("how", 2);
    if (how) {
      auto& r = dd::pmr::get_default_resource();
      VS_ASSERT(static_cast<Pool&>(r).id == (&r == &first ? 1 : 2));
    }
    {
      auto g = gen(1);
      vs_reach(first.taken ? "old" : "made");
    }
    t.join();
    VS_ASSERT(first.out == 0 && made->out == 0 && first.taken + made->taken == 1);
    dd::pmr::set_default_resource(*std::pmr::new_delete_resource());
    made.reset();
  }
  VS_ASSERT(live == 0 && vs_heap_live() == 0);
  vs_reach("end");
}
// several threads change the default: each previous one is returned exactly once
VS_ENTRY(poly_thread_exchange) {  // @reach=end
  {
    Pool a(1), b(2);
    static std::pmr::memory_resource* r1;
    std::thread t([&] { r1 = &dd::pmr::set_default_resource(a); });
    auto* r0 = &dd::pmr::set_default_resource(b);
    t.join();
    auto* last = &dd::pmr::get_default_resource();
    auto* nd = std::pmr::new_delete_resource();
    VS_ASSERT((r0 == nd && r1 == &b && last == &a) || (r1 == nd && r0 == &a && last == &b));
  }
  vs_reach("end");
}
