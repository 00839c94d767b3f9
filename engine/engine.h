#pragma once
#include "state.h"
#include <unordered_map>
#include <deque>
#include <random>
#include <cmath>

enum Bi : int {
  B_NONE = -1, B_POINT = 1, B_TOUCH, B_AWAIT, B_SPAWN, B_SELF, B_ACQ, B_REL, B_MALLOC, B_FREE, B_SYM, B_RANGE, B_CHOICE,
  B_CONCRETE, B_ASSUME, B_ASSERT, B_REACH, B_LOG, B_EXPTERM, B_END, B_ALLOWBLK, B_ALLOWLEAK, B_HEAPLIVE, B_YIELD, B_RAISE,
  B_TERMINATE, B_VRANGE, B_BLOCKID, B_MEMCPY, B_MEMMOVE, B_MEMSET, B_MEMCMP, B_STRLEN, B_STRCMP, B_ABORT, B_ASSERTFAIL,
  B_PUREVIRT, B_ATEXIT, B_NOP0, B_WCAS, B_INTRIN, B_NORACE_FREE, B_PAUSE, B_DIE, B_ARG0
};

struct Violation { std::string kind, msg; Z3_ast extra = nullptr; };
struct EndPath { int how; };   // 0 ok, 1 assumed away
struct Restart {};
struct VioRec {
  std::string kind, msg, where, bt, sig;
  std::map<std::string, uint64_t> model;
  bool haveModel = false;
};
struct Options {
  double timeLimit = 60;
  uint64_t maxSteps = 3000000, maxStates = 4000000;
  int preempt = -1, discovery = 40, traces = 3;
  uint64_t seed = 1;
  int maxVio = 4;
  bool verbose = false, norace = false;
};

struct Engine {
  Mod& m;
  Z& z;
  Options opt;
  std::vector<Slot> constObj;  // immutable globals by slot index
  std::vector<int> tlsGlobals;
  std::unordered_map<uint64_t, Func*> funcByAddr;
  // cumulative knowledge (fix point over restarts)
  std::unordered_map<uint64_t, uint32_t> atomicAcc;  // address byte -> thread mask
  std::unordered_map<uint64_t, uint32_t> objAcc;     // object slot -> thread mask
  std::unordered_set<uint64_t> sharedAddr, sharedObj;
  bool learned = false;
  uint64_t watch = 0, lastBase = 0;  // diagnosis: print all accesses to one object; object of the last violation
  // run mode
  enum Mode { EXPLORE, RANDOM, CONCRETE } mode = EXPLORE;
  std::map<std::string, uint64_t> model;
  std::mt19937_64 rng;
  std::vector<std::unique_ptr<State>> forks;  // siblings produced by the current run
  // statistics
  uint64_t nStates = 0, nTrans = 0, nPaths = 0, nAssumed = 0, nMerged = 0, nRevisit = 0, nInstr = 0, nForks = 0,
           nAsserts = 0, nAssertSym = 0, nRestarts = 0, maxDepth = 0, maxLayer = 0;
  std::map<std::string, uint64_t> reach;
  std::vector<VioRec> vios;
  std::set<std::string> vioSigs;
  std::vector<Z3_ast> terminalPcs;
  std::vector<Z3_ast> domain;  // range axioms of inputs
  std::set<Z3_ast> domainSet;
  std::set<std::string> unsupported;
  std::set<std::string> symNames;
  bool incomplete = false;
  std::string incompleteWhy;
  std::map<int, bool> splitOk;
  std::chrono::steady_clock::time_point t0;
  bool keepPcs = true;
  std::vector<std::map<std::string, uint64_t>> sampleModels;

  Engine(Mod& m_, Z& z_) : m(m_), z(z_) { t0 = std::chrono::steady_clock::now(); }
  double elapsed() { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); }

  // ------------------------------------------------------------------------------------------- memory
  Slot* slotFor(State& st, uint64_t a, bool write) {
    uint64_t ar = adArena(a), sl = adSlot(a);
    if (a >> 48) return nullptr;
    if (ar >= AR_HUGE) sl = 1;
    if (ar == AR_GLOB && sl < constObj.size() && constObj[sl].o) return &constObj[sl];
    if (ar >= st.ar.size() || !st.ar[ar]) return nullptr;
    Arena* A = write ? st.ar[ar].mut() : st.ar[ar].p;
    if (sl == 0 || sl >= A->s.size()) return nullptr;
    return &A->s[sl];
  }
  std::string hex(uint64_t x) { char b[32]; snprintf(b, 32, "0x%llx", (unsigned long long)x); return b; }
  std::string descr(uint64_t a) {
    if (a < 0x10000) return "null" + (a ? "+" + hex(a) : std::string());
    uint64_t ar = adArena(a);
    if (ar == AR_GLOB && adSlot(a) - 1 < m.globals.size()) return "global " + m.globals[adSlot(a) - 1].name;
    if (ar == AR_FUNC) return "code";
    if (ar >= 8) {
      const char* k[] = {"stack", "heap", "tls", "?"};
      return std::string(k[(ar - 8) % 4]) + " block #" + std::to_string(adSlot(a)) + " of thread " + std::to_string((ar - 8) / 4);
    }
    return hex(a);
  }
  // resolves an access of n bytes; throws on any memory error
  Slot* access(State& st, uint64_t a, uint64_t n, bool write, uint32_t align, const char* what) {
    if (a < 0x10000) throw Violation{"null-pointer", std::string(what) + " through " + descr(a)};
    Slot* s = slotFor(st, a, write);
    if (!s) {
      if (a >> 48 || adArena(a) < 8 || (adArena(a) - 8) % 4 != 0) throw Violation{"wild-pointer", std::string(what) + " of " + hex(a) + " (" + descr(a) + ")"};
      throw Violation{"use-after-scope", std::string(what) + " of " + descr(a)};
    }
    if (s->freed) lastBase = s->o.p ? s->o.p->base : 0;
    if (s->freed) throw Violation{"use-after-free", std::string(what) + " of freed " + descr(a)};
    Obj* o = s->o.p;
    if (!o) throw Violation{"wild-pointer", std::string(what) + " of " + descr(a)};
    if (adArena(a) == AR_GLOB && adSlot(a) - 1 < m.globals.size() && m.globals[adSlot(a) - 1].external && m.globals[adSlot(a) - 1].name.compare(0, 4, "_ZTI") != 0) throw Unsupported{"external data " + m.globals[adSlot(a) - 1].name};
    uint64_t off = a - o->base;
    if (a < o->base || off + n > o->size) throw Violation{"out-of-bounds", std::string(what) + " of " + std::to_string(n) + " bytes at offset " + std::to_string((int64_t)off) + " of " + descr(a) + " of size " + std::to_string(o->size)};
    if (off + n > o->d.size()) throw Unsupported{"access to offset " + std::to_string(off) + " of a huge block"};
    if (o->ssize.sym()) {
      Z3_ast bad = Z3_mk_bvult(z.c, o->ssize.s, z.num(off + n, 64));
      if (z.check(st.D, bad) != 0) throw Violation{"out-of-bounds", std::string(what) + " of " + std::to_string(n) + " bytes at offset " + std::to_string(off) + " of " + descr(a) + " (symbolic size)", bad};
    }
    if (align > 1 && (a & (align - 1))) throw Violation{"misaligned", std::string(what) + " of " + descr(a) + " needs alignment " + std::to_string(align)};
    if (write && (o->ro || (adArena(a) == AR_GLOB && constObj.size() > adSlot(a) && constObj[adSlot(a)].o))) throw Violation{"write-to-constant", descr(a)};
    return s;
  }
  Obj* wr(Slot* s) {
    Obj* o = s->o.mut();
    o->hashed = false;
    return o;
  }
  V rdBytes(State& st, Obj* o, uint64_t off, unsigned w) {
    unsigned n = (w + 7) / 8;
    bool anySym = false, anyUninit = false;
    if (!o->init.empty())
      for (unsigned i = 0; i < n; i++) if (!o->init[off + i]) { anyUninit = true; break; }
    if (!o->sym.empty())
      for (unsigned i = 0; i < n; i++) if (o->sym[off + i].e) { anySym = true; break; }
    if (!anySym && !anyUninit) {
      uint64_t v = 0;
      memcpy(&v, &o->d[off], n);
      return V(v & maskw(w));
    }
    if (anySym && !anyUninit) {
      SymB& f = o->sym[off];
      if (f.e && f.idx == 0 && (f.w + 7) / 8 == n) {
        bool whole = true;
        for (unsigned i = 1; i < n; i++) if (o->sym[off + i].e != f.e || o->sym[off + i].idx != i) { whole = false; break; }
        if (whole) {
          if (f.w == w) return V(0, f.e);
          if (f.w == 1 && w == 8) return z.zext(V(0, f.e), 1, 8);
          if (f.w == 8 && w == 1) return z.trunc(V(0, f.e), 8, 1);
        }
      }
    }
    Z3_ast r = nullptr;
    for (unsigned i = n; i-- > 0;) {
      Z3_ast b;
      if (!o->init.empty() && !o->init[off + i]) b = z.var("undef@" + hex(o->base + off + i), 8, true);
      else if (!o->sym.empty() && o->sym[off + i].e) {
        SymB& s = o->sym[off + i];
        Z3_ast e = s.e;
        if (s.w == 1) e = Z3_mk_ite(z.c, e, z.num(1, 8), z.num(0, 8));
        b = s.w <= 8 ? e : Z3_mk_extract(z.c, s.idx * 8 + 7, s.idx * 8, e);
      } else b = z.num(o->d[off + i], 8);
      r = r ? Z3_mk_concat(z.c, r, b) : b;
    }
    V v = z.simp(r, n * 8);
    if (w < n * 8) v = z.trunc(v, n * 8, w);
    return v;
  }
  void wrBytes(Obj* o, uint64_t off, V v, unsigned w) {
    unsigned n = (w + 7) / 8;
    if (!o->init.empty()) memset(&o->init[off], 1, n);
    if (!v.sym()) {
      uint64_t x = v.c & maskw(w);
      memcpy(&o->d[off], &x, n);
      if (!o->sym.empty()) for (unsigned i = 0; i < n; i++) o->sym[off + i] = SymB();
      return;
    }
    if (w > 1 && w % 8) { v = z.simp(Z3_mk_zero_ext(z.c, n * 8 - w, v.s), n * 8); w = n * 8; if (!v.sym()) { wrBytes(o, off, v, w); return; } }
    if (o->sym.empty()) o->sym.resize(o->d.size());
    memset(&o->d[off], 0, n);
    for (unsigned i = 0; i < n; i++) o->sym[off + i] = SymB{v.s, w, i};
  }
  V load(State& st, uint64_t a, unsigned w, uint32_t align = 1) {
    Slot* s = access(st, a, (w + 7) / 8, false, align, "read");
    return rdBytes(st, s->o.p, a - s->o->base, w);
  }
  void store(State& st, uint64_t a, V v, unsigned w, uint32_t align = 1) {
    Slot* s = access(st, a, (w + 7) / 8, true, align, "write");
    wrBytes(wr(s), a - s->o->base, v, w);
  }
  Obj* newObj(State& st, uint64_t arena, uint64_t size, uint64_t align, ObjKind k, bool init) {
    if (st.ar.size() <= arena) st.ar.resize(arena + 1);
    if (!st.ar[arena]) st.ar[arena] = Ref<Arena>(new Arena());
    Arena* A = st.ar[arena].mut();
    uint64_t slot = A->s.size();
    if (slot > 0xffff0) throw Unsupported{"too many allocations"};
    if (size > 0xE0000 && arena < AR_HUGE) throw Unsupported{"allocation of " + std::to_string(size) + " bytes"};
    Obj* o = new Obj();
    o->base = mkAddr(arena, slot, slotBaseOff(align));
    o->size = size;
    o->kind = k;
    o->align = align;
    o->d.assign(std::min(size, arena < AR_HUGE ? size : HUGE_DATA), 0);
    if (!init) o->init.assign(o->d.size(), 0);
    A->s.emplace_back();
    A->s.back().o = Ref<Obj>(o);
    return o;
  }
  uint64_t allocNew(State& st, uint64_t arena, uint64_t size, uint64_t align, ObjKind k) { return newObj(st, arena, size, align, k, false)->base; }

  // ------------------------------------------------------------------------------- data race detection
  bool isRtCtx(State& st) {
    auto& fr = st.th[st.cur].fr;
    return !fr.empty() && fr.back()->f->rt;
  }
  void race(State& st, Slot* s, uint64_t off, uint64_t len, bool write, bool atomic, uint32_t site, bool force = false) {
    if (watch && s->o.p && s->o.p->base == watch)
      fprintf(stderr, "  access: thread %d %s%s offset %lu len %lu at %s\n", st.cur, atomic ? "atomic " : "", write ? "write" : "read", off, len, backtrace(st).c_str());
    if (!st.mt || opt.norace) return;
    if (!force && isRtCtx(st)) return;
    Obj* o = s->o.p;
    if (!o) return;
    uint64_t key = o->base;
    int t = st.cur;
    if (!sharedObj.count(key)) {
      auto& mk = objAcc[key];
      uint32_t bit = 1u << t;
      if (!(mk & bit)) {
        mk |= bit;
        if (mk & (mk - 1)) { sharedObj.insert(key); learned = true; }
      }
      if (!sharedObj.count(key)) return;
    }
    Thread& T = st.th[t];
    Shadow* sh;
    uint64_t ar = adArena(key);
    if (ar == AR_GLOB && adSlot(key) < constObj.size() && constObj[adSlot(key)].o) return;
    Slot* ws = slotFor(st, key, true);
    if (!ws->sh) ws->sh = Ref<Shadow>(new Shadow());
    const Shadow* rs = ws->sh.p;
    bool covered = false;
    for (auto& r : rs->r) {
      if (off < r.off + r.len && r.off < off + len) {
        if (r.t != t && ((r.flags & 1) || write) && !((r.flags & 2) && atomic) && T.vc[r.t] < r.clk) {
          std::string w = (write ? (len == o->size && off == 0 && !atomic ? "write/free" : "write") : "read");
          lastBase = key;
          throw Violation{"data-race", w + " of " + descr(key) + " offset " + std::to_string(off) + " by thread " + std::to_string(t) +
                                           " conflicts with unordered " + ((r.flags & 1) ? "write" : "read") + ((r.flags & 2) ? " (atomic)" : "") + " by thread " + std::to_string(r.t)};
        }
        if (r.t == t && r.off <= off && r.off + r.len >= off + len && r.clk == T.vc[t] && ((r.flags & 1) || !write) && ((r.flags & 2) == (atomic ? 2 : 0))) covered = true;
      }
    }
    if (covered) return;
    sh = ws->sh.mut();
    // drop records subsumed by the new one
    size_t j = 0;
    for (size_t i = 0; i < sh->r.size(); i++) {
      auto& r = sh->r[i];
      bool sub = r.t == t && r.off >= off && r.off + r.len <= off + len && (write || !(r.flags & 1)) && (!atomic || (r.flags & 2));
      if (!sub) sh->r[j++] = r;
    }
    sh->r.resize(j);
    sh->r.push_back(Rec{(uint32_t)off, (uint32_t)len, (uint8_t)t, (uint8_t)((write ? 1 : 0) | (atomic ? 2 : 0)), T.vc[t], site});
  }
  static void join(VC& a, const VC& b) { for (int i = 0; i < MAXT; i++) if (b[i] > a[i]) a[i] = b[i]; }
  SyncLoc* sync(State& st, uint64_t a, bool create) {
    auto it = std::lower_bound(st.sync.begin(), st.sync.end(), a, [](const SyncLoc& l, uint64_t x) { return l.addr < x; });
    if (it != st.sync.end() && it->addr == a) return &*it;
    if (!create) return nullptr;
    it = st.sync.insert(it, SyncLoc{a, VC{}});
    return &*it;
  }
  void acquire(State& st, uint64_t a, unsigned n, bool acq) {
    if (!st.mt) return;
    Thread& T = st.th[st.cur];
    for (unsigned i = 0; i < n; i++)
      if (auto* l = sync(st, a + i, false)) { if (acq) join(T.vc, l->vc); else join(T.acqPend, l->vc); }
  }
  void release(State& st, uint64_t a, unsigned n, bool rel, bool rmw) {
    if (!st.mt) return;
    Thread& T = st.th[st.cur];
    for (unsigned i = 0; i < n; i++) {
      auto* l = sync(st, a + i, true);
      if (!rmw) l->vc = VC{};
      if (rel) join(l->vc, T.vc);
      else if (T.hasRelFence) join(l->vc, T.relFence);
    }
    if (rel) T.vc[st.cur]++;
  }
  void gcRace(State& st) {
    if (!st.mt) return;
    // records known to every live thread can not race any more
    for (size_t ai = 0; ai < st.ar.size(); ai++) {
      if (!st.ar[ai]) continue;
      Arena* A = st.ar[ai].p;
      for (size_t si = 1; si < A->s.size(); si++) {
        if (!A->s[si].sh || A->s[si].sh->r.empty()) continue;
        bool any = false;
        auto dead = [&](const Rec& r) {
          for (size_t u = 0; u < st.th.size(); u++)
            if (u != r.t && st.th[u].st != T_DONE && st.th[u].vc[r.t] < r.clk) return false;
          return true;
        };
        for (auto& r : A->s[si].sh->r) if (dead(r)) { any = true; break; }
        if (!any) continue;
        Arena* B = st.ar[ai].mut();
        Shadow* sh = B->s[si].sh.mut();
        sh->r.erase(std::remove_if(sh->r.begin(), sh->r.end(), dead), sh->r.end());
        A = B;
      }
    }
  }

  // ---------------------------------------------------------------------------------------- forking
  void addCond(State& st, Z3_ast c) {
    if (c == z.tru) return;
    for (auto a : st.D) if (a == c) return;
    st.D.push_back(c);
  }
  void checkUnknown(int r) {
    if (r < 0) { incomplete = true; incompleteWhy = "solver gave up on a query"; }
  }
  State* fork(State& st) {
    forks.push_back(std::make_unique<State>(st));
    State* s = forks.back().get();
    for (auto& f : s->th[s->cur].fr) (void)f;
    s->th[s->cur].passed = st.inVis;
    s->inVis = false;
    nForks++;
    return s;
  }
  // decides a boolean; forks when both outcomes are possible
  bool decide(State& st, V c) {
    if (!c.sym()) return c.c & 1;
    Z3_ast n = z.mkNot(c.s);
    int a = z.check(st.D, c.s), b = z.check(st.D, n);
    checkUnknown(a); checkUnknown(b);
    if (a && b) {
      if (z.hasUndef(c.s)) throw Violation{"uninitialised", "decision depends on an uninitialised value"};
      if (mode == RANDOM) {
        bool t = rng() & 1;
        addCond(st, t ? c.s : n);
        return t;
      }
      State* o = fork(st);
      addCond(*o, n);
      addCond(st, c.s);
      return true;
    }
    if (!a && !b) throw EndPath{1};
    return a != 0;
  }
  uint64_t concretize(State& st, V v, unsigned w, const char* what = "value") {
    if (!v.sym()) return v.c;
    if (z.hasUndef(v.s)) throw Violation{"uninitialised", std::string(what) + " depends on an uninitialised value"};
    uint64_t x = 0;
    // already split on: the value follows from the equalities (term == constant) of the path condition
    if (w > 1) {
      std::vector<Z3_ast> from, to;
      for (auto a : st.D) {
        if (Z3_get_ast_kind(z.c, a) != Z3_APP_AST) continue;
        Z3_app ap = Z3_to_app(z.c, a);
        if (Z3_get_app_num_args(z.c, ap) != 2 || Z3_get_decl_kind(z.c, Z3_get_app_decl(z.c, ap)) != Z3_OP_EQ) continue;
        Z3_ast l = Z3_get_app_arg(z.c, ap, 0), r = Z3_get_app_arg(z.c, ap, 1);
        if (Z3_get_ast_kind(z.c, r) != Z3_NUMERAL_AST || Z3_get_ast_kind(z.c, l) == Z3_NUMERAL_AST) continue;
        from.push_back(l);
        to.push_back(r);
      }
      if (!from.empty()) {
        V k = z.back(Z3_simplify(z.c, Z3_substitute(z.c, v.s, from.size(), from.data(), to.data())), w);
        if (!k.sym()) return k.c;
      }
    }
    if (!z.modelValue(st.D, nullptr, v.s, w, x)) {
      incomplete = true; incompleteWhy = "solver gave up enumerating a value";
      throw EndPath{1};
    }
    Z3_ast eq = w == 1 ? ((x & 1) ? v.s : z.mkNot(v.s)) : Z3_mk_eq(z.c, v.s, z.num(x, w));
    Z3_ast ne = z.mkNot(eq);
    int other = z.check(st.D, ne);
    checkUnknown(other);
    if (other) {
      if (mode != RANDOM) { State* o = fork(st); addCond(*o, ne); }
      addCond(st, eq);
    }
    return x;
  }

  // an address inside the live object that a (possibly symbolic) pointer points to; splits on the object, not on the address
  uint64_t objectOf(State& st, V v) {
    if (!v.sym()) return v.c;
    uint64_t x = 0;
    if (!z.modelValue(st.D, nullptr, v.s, 64, x)) { incomplete = true; incompleteWhy = "solver gave up enumerating a value"; throw EndPath{1}; }
    Slot* s = x < 0x10000 ? nullptr : slotFor(st, x, false);
    if (!s || s->freed || !s->o) return concretize(st, v, 64, "pointer");
    uint64_t base = s->o.p->base, size = s->o.p->size;
    Z3_ast in = Z3_mk_bvule(z.c, Z3_mk_bvsub(z.c, v.s, z.num(base, 64)), z.num(size, 64));
    Z3_ast out = z.mkNot(in);
    int other = z.check(st.D, out);
    checkUnknown(other);
    if (other) {
      if (mode != RANDOM) { State* o = fork(st); addCond(*o, out); }
      addCond(st, in);
    }
    return base;
  }

  // ------------------------------------------------------------------------------------------ helpers
  std::string cstr(State& st, uint64_t a) {
    std::string s;
    for (int i = 0; i < 400; i++) {
      V c = load(st, a + i, 8);
      if (c.sym() || !c.c) break;
      s.push_back((char)c.c);
    }
    return s;
  }
  Frame* top(State& st) {
    Ref<Frame>& r = st.th[st.cur].fr.back();
    Frame* f = r.mut();
    f->hashed = false;
    f->clean = false;
    return f;
  }
  void execd(Func* f) { f->executed = true; }
  void pushFrame(State& st, int t, Func* f, const std::vector<V>& args) {
    if (!f->decoded) m.decode(f);
    execd(f);
    Frame* fr = new Frame();
    fr->f = f;
    fr->pc = 0;
    fr->blk = 0;
    fr->r.resize(f->nslots);
    for (size_t i = 0; i < args.size() && i < f->nargSlots; i++) fr->r[i] = args[i];
    uint64_t a = arStack(t);
    if (st.ar.size() <= a) st.ar.resize(a + 1);
    if (!st.ar[a]) st.ar[a] = Ref<Arena>(new Arena());
    fr->stackBase = st.ar[a]->s.size();
    st.th[t].fr.push_back(Ref<Frame>(fr));
    if (st.th[t].fr.size() > 400) throw Violation{"stack-overflow", "call depth exceeds 400 frames"};
  }
  void popStackObjs(State& st, int t, uint32_t base) {
    uint64_t a = arStack(t);
    if (st.ar[a]->s.size() > base) {
      if (st.mt)
        for (size_t i = base; i < st.ar[a]->s.size(); i++) {
          Slot& s = st.ar[a]->s[i];
          if (s.o && sharedObj.count(s.o->base)) {
            uint64_t b = s.o->base, n = s.o->size;
            Slot* q = slotFor(st, b, true);
            race(st, q, 0, n, true, false, 0);
            for (unsigned k = 0; k < n; k++) dropSync(st, b + k);
          }
        }
      st.ar[a].mut()->s.resize(base);
    }
  }
  void dropSync(State& st, uint64_t a) {
    auto it = std::lower_bound(st.sync.begin(), st.sync.end(), a, [](const SyncLoc& l, uint64_t x) { return l.addr < x; });
    if (it != st.sync.end() && it->addr == a) st.sync.erase(it);
  }
  V opv(Frame* f, const Opnd& o) { return o.reg >= 0 ? f->r[o.reg] : o.c; }
  void jump(Frame* f, uint32_t b) {
    Block& B = f->f->blocks[b];
    if (!B.phis.empty()) {
      auto it = B.phis.find(f->blk);
      if (it != B.phis.end()) {
        auto& v = it->second;
        if (v.size() == 1) f->r[v[0].dst] = opv(f, v[0].src);
        else {
          V tmp[64];
          std::vector<V> big;
          V* p = tmp;
          if (v.size() > 64) { big.resize(v.size()); p = big.data(); }
          for (size_t i = 0; i < v.size(); i++) p[i] = opv(f, v[i].src);
          for (size_t i = 0; i < v.size(); i++) f->r[v[i].dst] = p[i];
        }
      }
    }
    f->blk = b;
    f->pc = B.start;
  }
  std::string backtrace(State& st) {
    std::string s;
    auto& fr = st.th[st.cur].fr;
    int n = 0;
    for (size_t i = fr.size(); i-- > 0 && n < 14; n++) {
      Func* f = fr[i]->f;
      s += (n ? " <- " : "") + f->name;
      if (fr[i]->pc < f->code.size() && f->code[fr[i]->pc].I)
        if (auto& dl = f->code[fr[i]->pc].I->getDebugLoc()) {
          auto* L = dl.get();
          std::string fn = L->getFilename().str();
          size_t p = fn.rfind('/');
          s += "(" + (p == std::string::npos ? fn : fn.substr(p + 1)) + ":" + std::to_string(L->getLine()) + ")";
        }
    }
    return s;
  }
  std::string whereRepo(State& st) {
    auto& fr = st.th[st.cur].fr;
    for (size_t i = fr.size(); i-- > 0;)
      if (fr[i]->f->repo) return fr[i]->f->name;
    return fr.empty() ? "" : fr.back()->f->name;
  }
  void record(State& st, const Violation& v) {
    VioRec r;
    r.kind = v.kind; r.msg = v.msg; r.where = whereRepo(st); r.bt = backtrace(st);
    std::string mm = v.msg;
    if (v.kind != "assertion" && v.kind != "assert-failed") {
      // volatile parts (block numbers) do not identify a violation
      std::string o; for (char ch : mm) if (!isdigit(ch)) o.push_back(ch); mm = o;
    }
    r.sig = v.kind + "|" + mm + "|" + r.where;
    if (vioSigs.count(r.sig)) return;
    if (mode == CONCRETE) r.model = model, r.haveModel = true;
    else {
      std::vector<Z3_ast> q = st.D;
      if (st.S) q.push_back(st.S);
      z.setTimeout(60000);
      r.haveModel = z.model(q, v.extra, r.model);
      z.setTimeout(20000);
    }
    vioSigs.insert(r.sig);
    vios.push_back(r);
  }

  // ------------------------------------------------------------------------------------- type matching
  static const std::map<std::string, std::string>& stdBases() {
    static std::map<std::string, std::string> b = {
        {"_ZTISt9bad_alloc", "_ZTISt9exception"}, {"_ZTISt20bad_array_new_length", "_ZTISt9bad_alloc"},
        {"_ZTISt13runtime_error", "_ZTISt9exception"}, {"_ZTISt11logic_error", "_ZTISt9exception"},
        {"_ZTISt12system_error", "_ZTISt13runtime_error"}, {"_ZTISt12length_error", "_ZTISt11logic_error"},
        {"_ZTISt12out_of_range", "_ZTISt11logic_error"}, {"_ZTISt16invalid_argument", "_ZTISt11logic_error"},
        {"_ZTISt12bad_weak_ptr", "_ZTISt9exception"}, {"_ZTISt17bad_function_call", "_ZTISt9exception"},
        {"_ZTISt18bad_variant_access", "_ZTISt9exception"}, {"_ZTISt19bad_optional_access", "_ZTISt9exception"},
        {"_ZTISt13bad_exception", "_ZTISt9exception"}, {"_ZTISt8bad_cast", "_ZTISt9exception"}};
    return b;
  }
  int globIdx(uint64_t a) { auto it = m.globalByAddr.find(a); return it == m.globalByAddr.end() ? -1 : it->second; }
  bool canCatch(uint64_t cti, uint64_t tti, int depth = 0) {
    if (cti == tti) return true;
    if (depth > 6) return false;
    int g = globIdx(tti), cg = globIdx(cti);
    if (g < 0 || cg < 0) return false;
    if (m.globals[g].name == m.globals[cg].name) return true;
    const llvm::GlobalVariable* G = m.globals[g].G;
    if (!G->hasInitializer()) {
      auto it = stdBases().find(m.globals[g].name);
      if (it == stdBases().end()) return false;
      if (it->second == m.globals[cg].name) return true;
      for (auto& gl : m.globals) if (gl.name == it->second) return canCatch(cti, gl.addr, depth + 1);
      // base not present in the module: walk names
      std::string b = it->second;
      while (stdBases().count(b)) { b = stdBases().at(b); if (b == m.globals[cg].name) return true; }
      return false;
    }
    auto* I = G->getInitializer();
    for (unsigned i = 2; i < I->getNumOperands(); i++) {
      auto* C = llvm::dyn_cast<llvm::Constant>(I->getOperand(i));
      if (C && C->getType()->isPointerTy() && llvm::isa<llvm::GlobalVariable>(C))
        if (canCatch(cti, m.constScalar(C), depth + 1)) return true;
    }
    return false;
  }
  uint64_t typeSel(uint64_t ti) { return ti ? 1 + adSlot(ti) : 0x7fffffff; }

  void doTerminate(State& st, const std::string& why) {
    if (st.expectTerm) { reach["terminate"]++; throw EndPath{0}; }
    throw Violation{"terminate", "std::terminate: " + why};
  }
  void unwind(State& st, uint64_t hdr) {
    Thread& T = st.th[st.cur];
    uint64_t tti = load(st, hdr, 64).c;
    // search phase
    bool found = false;
    for (size_t i = T.fr.size(); i-- > 0 && !found;) {
      Inst& in = T.fr[i]->f->code[T.fr[i]->pc];
      if (in.op != O_INVOKE) continue;
      Inst& lp = T.fr[i]->f->code[T.fr[i]->f->blocks[in.unwind].start];
      for (auto& c : lp.clauses) if (c.first == 0 && (c.second == 0 || canCatch(c.second, tti))) found = true;
      for (auto& c : lp.clauses) if (c.first == 1) found = true;
    }
    if (!found) doTerminate(st, "uncaught exception");
    for (;;) {
      if (T.fr.empty()) doTerminate(st, "uncaught exception");
      Frame* f = top(st);
      Inst& in = f->f->code[f->pc];
      if (in.op == O_INVOKE) {
        Inst& lp = f->f->code[f->f->blocks[in.unwind].start];
        if (lp.op != O_LANDINGPAD) throw Unsupported{"unwind target without landingpad"};
        int64_t sel = -1;
        for (auto& c : lp.clauses) {
          if (c.first == 0 && (c.second == 0 || canCatch(c.second, tti))) { sel = typeSel(c.second); break; }
          if (c.first == 1) { sel = 0; break; }
        }
        if (sel < 0 && lp.cleanup) sel = 0;
        if (sel >= 0) {
          T.excPtr = V(hdr);
          T.excSel = sel;
          jump(f, in.unwind);
          return;
        }
      }
      uint32_t base = f->stackBase;
      T.fr.pop_back();
      popStackObjs(st, st.cur, base);
    }
  }

  // ------------------------------------------------------------------------------------- threads
  void initTls(State& st, int t) {
    for (int gi : tlsGlobals) {
      Global& g = m.globals[gi];
      uint64_t a = arTls(t);
      if (st.ar.size() <= a) st.ar.resize(a + 1);
      if (!st.ar[a]) st.ar[a] = Ref<Arena>(new Arena());
      while (st.ar[a]->s.size() < g.tlsIdx) st.ar[a].mut()->s.emplace_back();
      Obj* o = newObj(st, a, g.size, g.align, K_GLOBAL, true);
      if (g.G->hasInitializer()) m.initBytes(g.G->getInitializer(), o->d.data());
    }
  }
  int spawn(State& st, Func* f, V arg) {
    int t = st.th.size();
    if (t >= MAXT) throw Unsupported{"more than 18 threads"};
    st.th.emplace_back();
    if (t == 0) { initTls(st, 0); st.th[0].vc[0] = 1; return 0; }
    st.mt = true;
    st.th[t].vc = st.th[st.cur].vc;
    st.th[t].vc[t] = 1;
    st.th[st.cur].vc[st.cur]++;
    initTls(st, t);
    pushFrame(st, t, f, {arg});
    return t;
  }
  bool enabled(State& st, int t) {
    Thread& T = st.th[t];
    if (T.st == T_DONE) return false;
    if (T.st == T_READY) return true;
    V v = load(st, T.awAddr, 32);
    if (v.sym()) throw Unsupported{"symbolic wait condition"};
    return ((int32_t)v.c == T.awVal) != (T.awNe != 0);
  }
  void noteAtomic(State& st, uint64_t a, unsigned n) {
    if (!st.mt) return;
    uint32_t bit = 1u << st.cur;
    for (unsigned i = 0; i < n; i++) {
      auto& mk = atomicAcc[a + i];
      if (!(mk & bit)) {
        mk |= bit;
        if ((mk & (mk - 1)) && sharedAddr.insert(a + i).second) learned = true;
      }
    }
  }
  bool isShared(uint64_t a, unsigned n) {
    for (unsigned i = 0; i < n; i++) if (sharedAddr.count(a + i)) return true;
    return false;
  }
  // true: the thread has to give way to the scheduler before executing this operation
  bool arrive(State& st, uint64_t a, unsigned n, bool force) {
    Thread& T = st.th[st.cur];
    if (T.passed) { T.passed = false; st.inVis = true; return false; }
    T.points++;
    noteAtomic(st, a, n);
    if (!st.mt || (!force && !isShared(a, n))) { st.inVis = true; return false; }
    bool other = false;
    for (size_t u = 0; u < st.th.size(); u++) if ((int)u != st.cur && enabled(st, u)) other = true;
    if (!other) { st.inVis = true; return false; }
    T.waiting = true;
    return true;
  }

#include "interp.inc"
#include "explore.inc"
};
