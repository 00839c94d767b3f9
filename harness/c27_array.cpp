// BOUND: storage: every element count up to 2000 (symbolic) for trivial elements, 0-4 tracked elements, up to 3 storages, 4 (quick) / 6 (thorough) construct / move / assign / swap / drop steps, two resources and the default, failing allocations
// @optional (an internal class)
#include "seq.h"
#include <kelcoro/thread_pool.hpp>
using namespace dd;
#ifdef VS_THOROUGH
constexpr int OPS = 6, FUNS = 3;
#else
constexpr int OPS = 4, FUNS = 2;
#endif
#include "c27_res.h"
// ---------- the storage
static ghost elems;
static int serial;
struct Elem {
  int magic = 8821, id;
  const void* self;
  Elem() : id(++serial), self(this) { ++elems; }
  Elem(const Elem&) = delete;
  ~Elem() {
    vs_assert(magic == 8821 && self == this, "an element is destroyed exactly once, where it was constructed");
    magic = 0;
    --elems;
  }
};
using Arr = noexport::fixed_array<Elem>;
struct Model {
  size_t n = 0;
  std::pmr::memory_resource* r = nullptr;
  int first = 0;
};
static void same(Arr& a, Model& m) {
  vs_assert(a.size() == m.n, "the size is the one asked for");
  vs_assert((size_t)(a.end() - a.begin()) == m.n && std::as_const(a).end() == a.end() && std::as_const(a).begin() == a.data(), "the range covers all elements");
  if (m.r) vs_assert(a.get_resource() == m.r, "the storage reports its resource");
  for (size_t i = 0; i < m.n; i++) {
    vs_assert(a[i].magic == 8821 && a[i].id == m.first + (int)i && &a[i] == a.begin() + i, "the elements are alive and in place");
    vs_assert(&std::as_const(a)[i] == &a[i], "the elements are alive and in place");
  }
}
VS_ENTRY(array_history) {  // @reach=end
  {
    std::optional<Arr> a[3];
    Model m[3];
    for (int i = 0; i < 2; i++) {
      int k = vs_choice("init", 3);
      int f = serial + 1;
      size_t n = k ? vs_choice("n", 3) : 0;
      if (k) a[i].emplace(n, *pick(k - 1));
      else a[i].emplace();
      m[i] = {n, k ? pick(k - 1) : std::pmr::new_delete_resource(), f};
    }
    for (int s = 0; s < OPS; s++) {
      int op = vs_choice("op", 6);
      if (op == 0) break;
      if (op == 1) {
        *a[0] = std::move(*a[1]);
        if (m[1].n) {       // the moved to storage owns the elements now; nothing is lost or doubled
          std::swap(m[0], m[1]);
          vs_assert(a[0]->size() == m[0].n, "the storage moved");
        } else std::swap(m[0], m[1]);
        if (a[1]->size() != m[1].n) { m[1].n = 0; m[1].r = nullptr; }
      } else if (op == 2) {
        a[2].emplace(std::move(*a[0]));
        m[2] = m[0];
        m[0] = {};
        a[0].emplace();
      } else if (op == 3) {
        if (a[2]) {
          *a[1] = std::move(*a[2]);
          std::swap(m[1], m[2]);
          if (a[2]->size() != m[2].n) { m[2].n = 0; m[2].r = nullptr; }
        }
      } else if (op == 4) {
        std::swap(*a[0], *a[1]);
        std::swap(m[0], m[1]);
      } else {
        Arr t(1, rb);
        *a[0] = std::move(t);
        m[0] = {1, &rb, serial};
      }
      int64_t total = 0;
      for (int i = 0; i < 3; i++)
        if (a[i]) same(*a[i], m[i]);
    }
  }
  vs_assert(elems == 0, "all elements are destroyed");
  vs_assert(ra.blocks == 0 && rb.blocks == 0 && vs_heap_live() == 0, "all blocks are given back");
  vs_reach("end");
}
struct Pair8 { uint64_t a; };
struct alignas(32) Wide32 { char c[32]; };
static size_t want_n, want_al;
struct Exact : std::pmr::memory_resource {
  void* block = nullptr;
  size_t n = 0, al = 0;
  void* do_allocate(size_t n_, size_t a_) override {
    vs_assert(!block, "one block");
    n = n_;
    al = a_;
    return block = ::operator new(n_, std::align_val_t(64));
  }
  void do_deallocate(void* p, size_t n_, size_t a_) override {
    vs_assert(p == block && n_ == n && a_ == al, "the block is given back with its size and alignment");
    block = nullptr;
    ::operator delete(p, std::align_val_t(64));
  }
  bool do_is_equal(const std::pmr::memory_resource& o) const noexcept override { return this == &o; }
};
template <class T> static void sizes(size_t max) {
  Exact r;
  uint64_t n = (uint64_t)vs_range("n", 0, (int64_t)max);
  {
    noexport::fixed_array<T> a(n, r);
    vs_assert(a.size() == n, "the size is the one asked for");
    vs_assert(a.get_resource() == &r, "the storage reports its resource");
    if (n == 0) {
      vs_reach("empty");
    } else {
      vs_assert(r.block && r.n >= n * sizeof(T), "there is room for every element");
      vs_assert(r.al >= alignof(T) && ((uint64_t)a.data() & (alignof(T) - 1)) == 0, "the elements are aligned");
      vs_assert((const char*)a.data() >= (char*)r.block && (const char*)(a.data() + n) <= (char*)r.block + r.n, "the elements are in the block");
      uint64_t i = (uint64_t)vs_range("i", 0, (int64_t)max);
      vs_assume(i < n);
      vs_assert(&a[i] == a.data() + i && vs_valid_range(&a[i], sizeof(T)), "each element is in the block");
      vs_reach("some");
    }
    noexport::fixed_array<T> b(std::move(a));
    vs_assert(b.size() == n && b.get_resource() == &r, "the storage moved");
  }
  vs_assert(!r.block, "the block is given back");
}
VS_ENTRY(array_sizes) {  // @reach=empty,some
  if (vs_choice("type", 2)) sizes<Wide32>(500);
  else sizes<Pair8>(2000);
}
VS_ENTRY(array_sizes_small) {  // @reach=empty,some
  if (vs_choice("type", 2)) sizes<Wide32>(12);
  else sizes<Pair8>(12);
}
VS_ENTRY(array_fault) {  // @reach=failed
  ra.fail_at = 0;
  bool failed = false;
  {
    noexport::fixed_array<Elem> keep(2, rb);
    try {
      noexport::fixed_array<Elem> a(3, ra);
    } catch (std::bad_alloc&) {
      failed = true;
    }
    vs_assert(keep.size() == 2 && keep[1].magic == 8821, "other storage is not touched");
  }
  vs_assert(failed && elems == 0 && rb.blocks == 0 && vs_heap_live() == 0, "nothing is left");
  vs_reach("failed");
}
