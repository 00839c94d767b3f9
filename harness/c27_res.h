#pragma once
// a resource that checks what is given back
struct Res : std::pmr::memory_resource {
  ghost blocks, allocs;
  int fail_at = -1;
  struct Head {
    Res* owner;
    size_t n, al, magic;
    void* pad[4];
  };
  void* do_allocate(size_t n, size_t al) override {
    vs_assert(al && (al & (al - 1)) == 0 && al <= 64, "a power of two alignment is asked for");
    if (fail_at >= 0 && allocs == fail_at) throw std::bad_alloc();
    char* p = (char*)::operator new(n + sizeof(Head), std::align_val_t(64));
    *(Head*)p = Head{this, n, al, 4711, {}};
    ++blocks;
    ++allocs;
    return p + sizeof(Head);
  }
  void do_deallocate(void* p, size_t n, size_t al) override {
    Head* h = (Head*)((char*)p - sizeof(Head));
    vs_assert(vs_valid_range(h, sizeof(Head)), "a block of this resource is given back");
    vs_assert(h->magic == 4711 && h->owner == this, "a block is given back to the resource it came from");
    vs_assert(h->n == n, "a block is given back with its size");
    vs_assert(h->al == al, "a block is given back with its alignment");
    h->magic = 0;
    --blocks;
    ::operator delete((void*)h, std::align_val_t(64));
  }
  bool do_is_equal(const std::pmr::memory_resource& o) const noexcept override { return this == &o; }
  // p points into a live block of this resource
  bool owns(const void* p) {
    Head* h = (Head*)vs_block_id(p);
    return h && h->magic == 4711 && h->owner == this && (const char*)p >= (char*)h + sizeof(Head);
  }
};
static Res ra, rb;
static std::pmr::memory_resource* pick(int k) { return k == 0 ? &ra : &rb; }
