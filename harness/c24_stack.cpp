// BOUND: every history of 3-4 operations (thorough: 6) of {allocate, deallocate the last, move construct, move assign (over an empty or a used resource), reuse all}, every size 1..300 bytes (symbolic; 1..20000 in histories of 3; 32000..34000 and 2^32 +- 40 for allocations repeated after release), initial buffer: none or 16..256 bytes (every size, symbolic)
// BOUND: contents: sizes 1, 16, 40, 100, 300 filled and checked; coroutines: task chains of depth 1-3, generators in LIFO order
// BOUND: programs of two phases: 0-5 allocations, 0-5 deallocations, then bulk reuse or not, sizes 16, 100 or 700 per phase
// @must_compile
#include "seq.h"
#include <cstring>
#include <kelcoro/stack_memory_resource.hpp>
#include <kelcoro/kelcoro.hpp>
using namespace dd;
alignas(16) static unsigned char buffer[256];
struct Alloc {
  void* p;
  uint64_t len;
};
static uint64_t heap_blocks() { return vs_heap_live(); }
static std::span<unsigned char> initial(int kind) {
  if (kind == 0) return {};
  if (kind == 1) return {buffer, 64};
  uint64_t n = (uint64_t)vs_range("buffer/16", 1, 16) * 16;
  return {buffer, (size_t)n};
}
struct Model {
  Alloc a[8];
  int n = 0;
  std::span<unsigned char> init;
  void add(void* p, uint64_t len) {
    uint64_t x = (uint64_t)p;
    VS_ASSERTM(x % coroframe_align() == 0, "aligned");
    VS_ASSERTM(vs_valid_range(p, len), "inside the buffer or memory owned by the resource");
    if (vs_block_id(p) == vs_block_id(buffer)) {
      uint64_t b = (uint64_t)init.data();
      VS_ASSERTM(init.size() && x >= b && x + len <= b + init.size(), "inside the part of the buffer that was given");
    }
    for (int i = 0; i < n; ++i) {
      uint64_t y = (uint64_t)a[i].p;
      VS_ASSERTM(((x + len <= y) | (y + a[i].len <= x)), "overlaps no live allocation");
    }
    a[n++] = {p, len};
  }
};
static int64_t longest = 300, shortest = 1;
static uint64_t len_() { return (uint64_t)vs_range("len", shortest, longest); }
static void history(int kind, int ops) {
  {
    Model m;
    m.init = initial(kind);
    std::optional<stack_resource> r(std::in_place, m.init);
    uint64_t freed_len = 0;     // size of the allocation just deallocated
    for (int i = 0; i < ops; ++i) {
      uint64_t before = heap_blocks();
      switch (vs_choice("op", 5)) {
        case 0: {
          uint64_t len = len_();
          void* p = r->allocate(len);
          m.add(p, len);
          if (freed_len) VS_ASSERTM((len > freed_len) | (heap_blocks() == before), "memory of a deallocated allocation is reused");
          VS_ASSERTM(heap_blocks() <= before + 1, "one chunk at a time");
          freed_len = 0;
          break;
        }
        case 1:
          vs_assume(m.n > 0);
          --m.n;
          r->deallocate(m.a[m.n].p, m.a[m.n].len);
          VS_ASSERTM(heap_blocks() == before, "deallocation keeps the memory for reuse");
          freed_len = m.a[m.n].len;
          break;
        case 2: {     // moved: the new object owns everything
          stack_resource other(std::move(*r));
          r.reset();
          VS_ASSERT(heap_blocks() == before);
          r.emplace(std::move(other));
          break;
        }
        case 3: {     // move assigned over another one, which gives its memory back
          stack_resource other;
          void* q = nullptr;
          if (vs_choice("used", 2)) {
            q = other.allocate(20);
            VS_ASSERT(q && heap_blocks() == before + 1);
          }
          other = std::move(*r);
          VS_ASSERTM(heap_blocks() == before, "the memory of the assigned resource is released");
          r.emplace(std::move(other));
          break;
        }
        case 4:
          vs_assume(m.n > 0);
          m.n = 0;
          r->reuse_memory();
          VS_ASSERTM(heap_blocks() == before, "bulk reuse keeps the memory");
          freed_len = 0;
          break;
      }
    }
    if (vs_choice("dealloc", 2))
      while (m.n) {
        --m.n;
        r->deallocate(m.a[m.n].p, m.a[m.n].len);
      }
  }
  VS_ASSERTM(heap_blocks() == 0, "everything from the heap is released at destruction");
  vs_reach("end");
}
VS_ENTRY(stk_history_none) { history(0, 4); }      // @reach=end
VS_ENTRY(stk_history_fixed) { history(1, 4); }     // @reach=end
VS_ENTRY(stk_history_sym) { history(2, 3); }       // @reach=end
// every size up to 20000 bytes
VS_ENTRY(stk_history_big) { longest = 20000; history(1, 3); }  // @reach=end
VS_ENTRY(stk_history_huge) { shortest = (1ll << 32) - 40; longest = (1ll << 32) + 40; history(1, 3); }  // @reach=end
VS_ENTRY(stk_history_big4) { longest = 20000; history(1, 4); } // @thorough @reach=end
VS_ENTRY(stk_history_none6) { history(0, 6); }     // @thorough @reach=end @ttime=1500
VS_ENTRY(stk_history_fixed6) { history(1, 6); }    // @thorough @reach=end @ttime=1500
VS_ENTRY(stk_history_sym6) { history(2, 5); }      // @thorough @reach=end @ttime=1500
// the same allocations again, after deallocating all of them or after bulk reuse, need no further memory and the buffer is used again
static void replay(int kind, int n) {
  {
    auto init = initial(kind);
    stack_resource r(init);
    uint64_t len[6];
    void *first[6], *second[6];
    for (int i = 0; i < n; ++i) first[i] = r.allocate(len[i] = len_());
    uint64_t held = heap_blocks();
    if (vs_choice("bulk", 2)) r.reuse_memory();
    else
      for (int i = n - 1; i >= 0; --i) r.deallocate(first[i], len[i]);
    Model m;
    m.init = init;
    for (int i = 0; i < n; ++i) {
      second[i] = r.allocate(len[i]);
      m.add(second[i], len[i]);
      VS_ASSERTM(heap_blocks() == held, "no more memory is requested for what was available before");
    }
    if (init.size()) VS_ASSERTM((len[0] + 15) / 16 * 16 > init.size() || vs_block_id(second[0]) == vs_block_id(buffer) || vs_block_id(first[0]) != vs_block_id(buffer),
                                "the initial buffer is available again");
  }
  VS_ASSERT(heap_blocks() == 0);
  vs_reach("end");
}
VS_ENTRY(stk_replay_none) { replay(0, 4); }      // @reach=end
VS_ENTRY(stk_replay_fixed) { replay(1, 4); }     // @reach=end
VS_ENTRY(stk_replay_sym) { replay(2, 3); }       // @reach=end
VS_ENTRY(stk_replay_big) { longest = 10000; replay(1, 2); }     // @reach=end
VS_ENTRY(stk_replay_64k) { shortest = 32000; longest = 34000; replay(1, 2); }  // @reach=end
VS_ENTRY(stk_replay_huge) { shortest = (1ll << 32) - 40; longest = (1ll << 32) + 40; replay(1, 2); }  // @reach=end
VS_ENTRY(stk_replay_big3) { longest = 10000; replay(1, 3); }    // @thorough @reach=end
VS_ENTRY(stk_replay_none6) { replay(0, 6); }     // @thorough @reach=end @ttime=1500
VS_ENTRY(stk_replay_sym6) { replay(2, 6); }      // @thorough @reach=end @ttime=1500
// partial bulk reuse after some history: afterwards the buffer serves what fits in it
VS_ENTRY(stk_reuse_buffer) {  // @reach=end
  {
    stack_resource r(std::span<unsigned char>(buffer, 128));
    int n = vs_choice("n", 4);
    for (int i = 0; i < n; ++i) (void)r.allocate(len_());
    r.reuse_memory();
    uint64_t len = (uint64_t)vs_range("fits", 1, 128);
    uint64_t before = heap_blocks();
    void* p = r.allocate(len);
    VS_ASSERTM(p == buffer && heap_blocks() == before, "the initial buffer is available again");
  }
  vs_reach("end");
}
// contents survive: nothing of the resource's own bookkeeping lies in handed out memory
static void contents(int kind, int ops) {
  static const int sizes[] = {1, 16, 40, 100, 300};
  {
    struct {
      unsigned char* p;
      int len;
      unsigned char v;
    } a[8];
    int n = 0;
    stack_resource r(kind ? std::span<unsigned char>(buffer, 96) : std::span<unsigned char>());
    auto intact = [&](int i) {
      for (int k = 0; k < a[i].len; ++k) VS_ASSERTM(a[i].p[k] == a[i].v, "contents of a live allocation are untouched");
    };
    for (int i = 0; i < ops; ++i) {
      if (n && vs_choice("op", 2)) {
        --n;
        intact(n);
        for (int k = 0; k < a[n].len; ++k) a[n].p[k] = 0xEE;
        r.deallocate(a[n].p, a[n].len);
      } else {
        int len = sizes[vs_choice("size", 5)];
        unsigned char* p = (unsigned char*)r.allocate(len);
        for (int k = 0; k < len; ++k) p[k] = (unsigned char)(i + 1);
        a[n++] = {p, len, (unsigned char)(i + 1)};
      }
    }
    while (n) {
      --n;
      intact(n);
      for (int k = 0; k < a[n].len; ++k) a[n].p[k] = 0xEE;
      r.deallocate(a[n].p, a[n].len);
    }
  }
  VS_ASSERT(heap_blocks() == 0);
  vs_reach("end");
}
VS_ENTRY(stk_contents) { contents(0, 3); }         // @reach=end
VS_ENTRY(stk_contents_buf) { contents(1, 3); }     // @reach=end
VS_ENTRY(stk_contents4) { contents(0, 4); }        // @thorough @reach=end @ttime=900
VS_ENTRY(stk_contents_buf4) { contents(1, 4); }    // @thorough @reach=end @ttime=900
// an allocation failure reaches the caller and leaves the resource usable
VS_ENTRY(stk_alloc_fault) {  // @reach=failed,ok
  bool failed = false;
  {
    Model m;
    m.init = initial(vs_choice("kind", 2));
    stack_resource r(m.init);
    uint64_t l0 = len_(), l1 = len_();
    void* p = r.allocate(l0);
    m.add(p, l0);
    vsrt_alloc_faults(1);
    try {
      void* q = r.allocate(l1);
      m.add(q, l1);
    } catch (std::bad_alloc&) {
      failed = true;
    }
    vsrt_alloc_faults(0);
    uint64_t l2 = len_();
    void* q = r.allocate(l2);
    m.add(q, l2);
    while (m.n) {
      --m.n;
      r.deallocate(m.a[m.n].p, m.a[m.n].len);
    }
  }
  VS_ASSERT(heap_blocks() == 0);
  vs_reach(failed ? "failed" : "ok");
}
// coroutines
template <int N> struct Pad {
  unsigned char b[N];
};
template <int N> static task<int> deep(int d, with_stack_resource r) {
  Live l;
  Pad<N> p{};
  p.b[N - 1] = (unsigned char)d;
  if (d > 1) {
    int x = co_await deep<N>(d - 1, r);
    VS_ASSERT(x == d - 1);
    if (d == 2) {
      int y = co_await deep<N>(1, r);
      VS_ASSERT(y == 1);
    }
  }
  if (d == 1) co_await Park{};
  VS_ASSERT(p.b[N - 1] == d);
  co_return p.b[N - 1];
}
template <int N> static void coro_chain(stack_resource& r) {
  int d = 1 + vs_choice("depth", 3);
  static int result;
  auto outer = [](int d, stack_resource& r) -> Co {
    result = co_await deep<N>(d, r);
    int again = co_await deep<N>(1, r);
    VS_ASSERT(again == 1);
  };
  outer(d, r);
  drive(true);
  VS_ASSERT(result == d);
}
VS_ENTRY(stk_coroutines) {  // @reach=end
  {
    stack_resource r(vs_choice("buf", 2) ? std::span<unsigned char>(buffer, 256) : std::span<unsigned char>());
    switch (vs_choice("locals", 2)) {
      case 0: coro_chain<1>(r); break;
      case 1: coro_chain<200>(r); break;
    }
    VS_ASSERT(live == 0);
  }
  VS_ASSERT(vs_heap_live() == 0);
  vs_reach("end");
}
static generator<int> numbers(int n, with_stack_resource r) {
  Live l;
  for (int i = 0; i < n; ++i) co_yield int(i);
  if (n > 1) co_yield elements_of(numbers(n - 1, r));
}
VS_ENTRY(stk_generator) {  // @reach=end
  {
    stack_resource r;
    int n = 1 + vs_choice("n", 3), stop = vs_choice("stop", 7), seen = 0;
    auto g = numbers(n, r);
    for (int x : g) {
      (void)x;
      if (++seen == stop) break;
    }
    VS_ASSERT(seen == n * (n + 1) / 2 || seen == stop);
  }
  VS_ASSERT(live == 0 && vs_heap_live() == 0);
  vs_reach("end");
}

// longer programs over several chunks
static void phases(int kind, int n) {
  {
    Model m;
    m.init = initial(kind);
    stack_resource r(m.init);
    static const uint64_t sizes[3] = {16, 100, 700};
    for (int p = 0; p < n; ++p) {
      int up = vs_choice("up", 6);
      uint64_t len = sizes[up ? vs_choice("size", 3) : 0];
      for (int i = 0; i < up && m.n < 8; ++i) {
        uint64_t l = len + 16 * (i % 3), before = heap_blocks();
        void* a = r.allocate(l);
        m.add(a, l);
        std::memset(a, 0x40 + m.n, l);
        VS_ASSERTM(heap_blocks() <= before + 1, "one chunk at a time");
      }
      for (int i = vs_choice("down", m.n + 1); i > 0; --i) {
        --m.n;
        for (uint64_t k = 0; k < m.a[m.n].len; k += 13) VS_ASSERTM(((unsigned char*)m.a[m.n].p)[k] == 0x41 + m.n, "contents are kept");
        uint64_t before = heap_blocks();
        r.deallocate(m.a[m.n].p, m.a[m.n].len);
        VS_ASSERTM(heap_blocks() == before, "deallocation keeps the memory for reuse");
      }
      if (m.n && p + 1 < n && vs_choice("reuse", 2)) {
        m.n = 0;
        uint64_t before = heap_blocks();
        r.reuse_memory();
        VS_ASSERTM(heap_blocks() == before, "bulk reuse keeps the memory");
      }
    }
    while (m.n) {
      --m.n;
      r.deallocate(m.a[m.n].p, m.a[m.n].len);
    }
  }
  VS_ASSERTM(heap_blocks() == 0, "everything from the heap is released at destruction");
  vs_reach("end");
}
VS_ENTRY(stk_phases_none) { phases(0, 2); }      // @reach=end
VS_ENTRY(stk_phases_buffer) { phases(1, 2); }    // @reach=end
VS_ENTRY(stk_phases_none3) { phases(0, 3); }     // @thorough @reach=end @ttime=1500
