#pragma once
#include "module.h"
#include <array>
#include <cstring>

template <class T>
struct Ref {
  T* p = nullptr;
  Ref() = default;
  Ref(T* x) : p(x) { if (p) p->rc++; }
  Ref(const Ref& o) : p(o.p) { if (p) p->rc++; }
  Ref(Ref&& o) noexcept : p(o.p) { o.p = nullptr; }
  Ref& operator=(Ref o) noexcept { std::swap(p, o.p); return *this; }
  ~Ref() { if (p && --p->rc == 0) delete p; }
  T* operator->() const { return p; }
  T& operator*() const { return *p; }
  explicit operator bool() const { return p != nullptr; }
  T* mut() {
    if (p->rc > 1) { T* n = new T(*p); n->rc = 1; --p->rc; p = n; }
    return p;
  }
};
struct RC {
  int rc = 0;
  RC() = default;
  RC(const RC&) : rc(0) {}
};

inline uint64_t mix(uint64_t h) {
  h ^= h >> 32; h *= 0xd6e8feb86659fd93ull; h ^= h >> 32; h *= 0xd6e8feb86659fd93ull; h ^= h >> 32;
  return h;
}
struct H2 {
  uint64_t a = 0x9e3779b97f4a7c15ull, b = 0xc2b2ae3d27d4eb4full;
  void add(uint64_t x) {
    a = mix(a ^ (x + 0x9e3779b97f4a7c15ull)) + (a << 1);
    b = mix(b + x * 0xff51afd7ed558ccdull) ^ (b >> 7);
  }
  void add(const H2& o) { add(o.a); add(o.b); }
  bool operator==(const H2& o) const { return a == o.a && b == o.b; }
};
struct H2Hash { size_t operator()(const H2& h) const { return h.a; } };

struct SymB { Z3_ast e = nullptr; uint32_t w = 0; uint32_t idx = 0; };
enum ObjKind : uint8_t { K_GLOBAL, K_STACK, K_HEAP };
struct Obj : RC {
  uint64_t base = 0, size = 0;
  V ssize;  // symbolic size if ssize.sym()
  ObjKind kind = K_GLOBAL;
  uint8_t akind = 0;
  bool noleak = false, ro = false;
  uint32_t align = 1;
  uint32_t site = 0;
  std::vector<uint8_t> d, init;  // init empty: everything initialised
  std::vector<SymB> sym;
  bool hashed = false;
  H2 h;
  const H2& hash() {
    if (hashed) return h;
    H2 x;
    x.add(base); x.add(size); x.add((uint64_t)ssize.s); x.add(akind);
    size_t i = 0;
    for (; i + 8 <= d.size(); i += 8) { uint64_t q; memcpy(&q, &d[i], 8); x.add(q); }
    for (; i < d.size(); i++) x.add(d[i]);
    if (!init.empty()) {
      for (i = 0; i + 8 <= init.size(); i += 8) { uint64_t q; memcpy(&q, &init[i], 8); x.add(q); }
      for (; i < init.size(); i++) x.add(init[i]);
    }
    for (i = 0; i < sym.size(); i++)
      if (sym[i].e) { x.add(i); x.add((uint64_t)sym[i].e); x.add(sym[i].idx); }
    h = x; hashed = true;
    return h;
  }
};
typedef std::array<uint16_t, MAXT> VC;
struct Rec { uint32_t off, len; uint8_t t, flags; uint16_t clk; uint32_t site; };  // flags: 1 write, 2 atomic
struct Shadow : RC { std::vector<Rec> r; };
struct Slot {
  Ref<Obj> o;
  Ref<Shadow> sh;
  bool freed = false;
};
struct Arena : RC { std::vector<Slot> s; Arena() : s(1) {} };

struct Frame : RC {
  Func* f = nullptr;
  uint32_t pc = 0, blk = 0;
  uint32_t stackBase = 0;
  std::vector<V> r;
  bool hashed = false, clean = false;
  H2 h;
  const H2& hash() {
    if (hashed) return h;
    H2 x;
    x.add((uint64_t)f); x.add(((uint64_t)pc << 32) | blk); x.add(stackBase);
    for (auto& v : r) { x.add(v.c); if (v.s) x.add((uint64_t)v.s); }
    h = x; hashed = true;
    return h;
  }
};
enum TStatus : uint8_t { T_READY, T_AWAIT, T_DONE };
struct Thread {
  std::vector<Ref<Frame>> fr;
  TStatus st = T_READY;
  bool passed = false, waiting = false;
  uint64_t awAddr = 0; int awNe = 0; int32_t awVal = 0;
  uint32_t points = 0;
  VC vc{};
  V excPtr; uint64_t excSel = 0;
  std::vector<Func*> queue;  // functions still to run (thread 0: constructors, then the entry)
  VC relFence{}, acqPend{};
  bool hasRelFence = false;
};
struct SyncLoc { uint64_t addr; VC vc; };
struct LogEnt { int t; int64_t k; int u; };
struct State {
  std::vector<Thread> th;
  std::vector<Ref<Arena>> ar;
  int cur = 0;
  std::vector<Z3_ast> D;     // data constraints
  Z3_ast S = nullptr;        // schedule formula (null = true)
  uint32_t depth = 0;        // scheduling decisions taken
  uint32_t preempts = 0, node = 0;
  uint64_t steps = 0;
  uint32_t wcas = 0;
  bool inVis = false, mt = false, expectTerm = false, allowBlocked = false, allowLeaks = false;
  int phase = 0;             // 0 constructors, 1 harness
  std::vector<std::pair<uint64_t, uint32_t>> symCount;
  std::vector<SyncLoc> sync;
  std::vector<LogEnt> switches;      // concrete mode
  std::vector<std::pair<std::string, uint64_t>> symLog; // concrete mode
  std::vector<uint64_t> log;         // concrete mode
};
