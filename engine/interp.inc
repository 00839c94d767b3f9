  // interp.inc: execution of decoded instructions (part of struct Engine)
  // ---------------------------------------------------------------------------------------- arithmetic
  [[noreturn]] void unsup(const std::string& s) { throw Unsupported{s}; }
  V binop(State& st, unsigned opc, V a, V b, unsigned w) {
    using I = llvm::Instruction;
    if (!a.sym() && !b.sym()) {
      uint64_t x = a.c & maskw(w), y = b.c & maskw(w), r = 0;
      switch (opc) {
        case I::Add: r = x + y; break;
        case I::Sub: r = x - y; break;
        case I::Mul: r = x * y; break;
        case I::And: r = x & y; break;
        case I::Or: r = x | y; break;
        case I::Xor: r = x ^ y; break;
        case I::Shl: if (y >= w) throw Violation{"undefined-behaviour", "shift amount too large"}; r = x << y; break;
        case I::LShr: if (y >= w) throw Violation{"undefined-behaviour", "shift amount too large"}; r = x >> y; break;
        case I::AShr: if (y >= w) throw Violation{"undefined-behaviour", "shift amount too large"}; r = (uint64_t)(sextw(x, w) >> y); break;
        case I::UDiv: if (!y) throw Violation{"undefined-behaviour", "division by zero"}; r = x / y; break;
        case I::URem: if (!y) throw Violation{"undefined-behaviour", "division by zero"}; r = x % y; break;
        case I::SDiv: case I::SRem: {
          int64_t p = sextw(x, w), q = sextw(y, w);
          if (!q) throw Violation{"undefined-behaviour", "division by zero"};
          if (q == -1) { r = opc == I::SDiv ? (uint64_t)0 - (uint64_t)p : 0; break; }
          r = (uint64_t)(opc == I::SDiv ? p / q : p % q);
          break;
        }
        default: unsup("binop");
      }
      return V(r & maskw(w));
    }
    // cheap identities
    if (!b.sym() && (b.c & maskw(w)) == 0 && (opc == I::Add || opc == I::Sub || opc == I::Or || opc == I::Xor || opc == I::Shl || opc == I::LShr || opc == I::AShr)) return a;
    if (!a.sym() && (a.c & maskw(w)) == 0 && (opc == I::Add || opc == I::Or || opc == I::Xor)) return b;
    if (((!b.sym() && (b.c & maskw(w)) == 0) || (!a.sym() && (a.c & maskw(w)) == 0)) && (opc == I::And || opc == I::Mul)) return V(0);
    Z3_ast x = z.t(a, w), y = z.t(b, w);
    Z3_context c = z.c;
    if (w == 1) {
      switch (opc) {
        case I::And: case I::Mul: return z.simp(z.mkAnd(x, y), 1);
        case I::Or: return z.simp(z.mkOr(x, y), 1);
        case I::Xor: case I::Add: case I::Sub: return z.simp(Z3_mk_xor(c, x, y), 1);
        default: unsup("i1 binop");
      }
    }
    Z3_ast r = nullptr;
    switch (opc) {
      case I::Add: r = Z3_mk_bvadd(c, x, y); break;
      case I::Sub: r = Z3_mk_bvsub(c, x, y); break;
      case I::Mul: r = Z3_mk_bvmul(c, x, y); break;
      case I::And: r = Z3_mk_bvand(c, x, y); break;
      case I::Or: r = Z3_mk_bvor(c, x, y); break;
      case I::Xor: r = Z3_mk_bvxor(c, x, y); break;
      case I::Shl: r = Z3_mk_bvshl(c, x, y); break;
      case I::LShr: r = Z3_mk_bvlshr(c, x, y); break;
      case I::AShr: r = Z3_mk_bvashr(c, x, y); break;
      case I::UDiv: case I::URem: case I::SDiv: case I::SRem: {
        if (b.sym()) {
          Z3_ast zr = Z3_mk_eq(c, y, z.num(0, w));
          if (z.check(st.D, zr) != 0) throw Violation{"undefined-behaviour", "division by zero", zr};
        } else if ((b.c & maskw(w)) == 0) throw Violation{"undefined-behaviour", "division by zero"};
        r = opc == I::UDiv ? Z3_mk_bvudiv(c, x, y) : opc == I::URem ? Z3_mk_bvurem(c, x, y) : opc == I::SDiv ? Z3_mk_bvsdiv(c, x, y) : Z3_mk_bvsrem(c, x, y);
        break;
      }
      default: unsup("binop");
    }
    return z.simp(r, w);
  }
  V icmp(unsigned p, V a, V b, unsigned w) {
    using C = llvm::CmpInst;
    if (!a.sym() && !b.sym()) {
      uint64_t x = a.c & maskw(w), y = b.c & maskw(w);
      int64_t sx = sextw(x, w), sy = sextw(y, w);
      switch (p) {
        case C::ICMP_EQ: return V(x == y);
        case C::ICMP_NE: return V(x != y);
        case C::ICMP_UGT: return V(x > y);
        case C::ICMP_UGE: return V(x >= y);
        case C::ICMP_ULT: return V(x < y);
        case C::ICMP_ULE: return V(x <= y);
        case C::ICMP_SGT: return V(sx > sy);
        case C::ICMP_SGE: return V(sx >= sy);
        case C::ICMP_SLT: return V(sx < sy);
        case C::ICMP_SLE: return V(sx <= sy);
      }
      unsup("icmp");
    }
    Z3_ast x = z.t(a, w), y = z.t(b, w), r = nullptr;
    Z3_context c = z.c;
    if (w == 1) {
      switch (p) {
        case C::ICMP_EQ: r = Z3_mk_eq(c, x, y); break;
        case C::ICMP_NE: r = Z3_mk_xor(c, x, y); break;
        case C::ICMP_UGT: case C::ICMP_SLT: r = z.mkAnd(x, z.mkNot(y)); break;
        case C::ICMP_ULT: case C::ICMP_SGT: r = z.mkAnd(z.mkNot(x), y); break;
        case C::ICMP_UGE: case C::ICMP_SLE: r = z.mkOr(x, z.mkNot(y)); break;
        case C::ICMP_ULE: case C::ICMP_SGE: r = z.mkOr(z.mkNot(x), y); break;
      }
      return z.simp(r, 1);
    }
    switch (p) {
      case C::ICMP_EQ: r = Z3_mk_eq(c, x, y); break;
      case C::ICMP_NE: r = z.mkNot(Z3_mk_eq(c, x, y)); break;
      case C::ICMP_UGT: r = Z3_mk_bvugt(c, x, y); break;
      case C::ICMP_UGE: r = Z3_mk_bvuge(c, x, y); break;
      case C::ICMP_ULT: r = Z3_mk_bvult(c, x, y); break;
      case C::ICMP_ULE: r = Z3_mk_bvule(c, x, y); break;
      case C::ICMP_SGT: r = Z3_mk_bvsgt(c, x, y); break;
      case C::ICMP_SGE: r = Z3_mk_bvsge(c, x, y); break;
      case C::ICMP_SLT: r = Z3_mk_bvslt(c, x, y); break;
      case C::ICMP_SLE: r = Z3_mk_bvsle(c, x, y); break;
      default: unsup("icmp");
    }
    return z.simp(r, 1);
  }
  V ite(V c, V a, V b, unsigned w) {
    if (a == b) return a;
    return z.simp(Z3_mk_ite(z.c, c.s, z.t(a, w), z.t(b, w)), w);
  }
  static double asD(uint64_t c, unsigned w) {
    if (w == 32) { float f; uint32_t x = (uint32_t)c; memcpy(&f, &x, 4); return f; }
    double d; memcpy(&d, &c, 8); return d;
  }
  static uint64_t fromD(double d, unsigned w) {
    if (w == 32) { float f = (float)d; uint32_t x; memcpy(&x, &f, 4); return x; }
    uint64_t c; memcpy(&c, &d, 8); return c;
  }
  uint32_t siteOf(const Inst& in) { (void)in; return 0; }

  static bool isAcq(unsigned o) { return o == 4 || o == 6 || o == 7; }
  static bool isRel(unsigned o) { return o == 5 || o == 6 || o == 7; }

  void copyBytes(State& st, uint64_t d, uint64_t s, uint64_t n, const char* what) {
    if (!n) return;
    Slot* ss = access(st, s, n, false, 1, what);
    Ref<Obj> so = ss->o;
    race(st, ss, s - so->base, n, false, false, 0);
    Slot* ds = access(st, d, n, true, 1, what);
    race(st, ds, d - ds->o->base, n, true, false, 0);
    ds = slotFor(st, d, true);
    uint64_t so_ = s - so->base, do_ = d - ds->o->base;
    std::vector<uint8_t> bytes(so->d.begin() + so_, so->d.begin() + so_ + n), ini;
    std::vector<SymB> sy;
    if (!so->init.empty()) ini.assign(so->init.begin() + so_, so->init.begin() + so_ + n);
    if (!so->sym.empty()) sy.assign(so->sym.begin() + so_, so->sym.begin() + so_ + n);
    Obj* o = wr(ds);
    memcpy(&o->d[do_], bytes.data(), n);
    if (!o->init.empty()) { if (ini.empty()) memset(&o->init[do_], 1, n); else memcpy(&o->init[do_], ini.data(), n); }
    else if (!ini.empty() && std::find(ini.begin(), ini.end(), 0) != ini.end()) { o->init.assign(o->size, 1); memcpy(&o->init[do_], ini.data(), n); }
    bool any = false;
    for (auto& x : sy) if (x.e) any = true;
    if (any && o->sym.empty()) o->sym.resize(o->size);
    if (!o->sym.empty()) for (uint64_t i = 0; i < n; i++) o->sym[do_ + i] = any ? sy[i] : SymB();
  }

  std::string symName(State& st, const std::string& base) {
    H2 h;
    for (char ch : base) h.add(ch);
    h.add(st.cur);
    uint32_t n = 0;
    bool f = false;
    for (auto& p : st.symCount) if (p.first == h.a) { n = p.second++; f = true; break; }
    if (!f) {
      st.symCount.push_back({h.a, 1});
      std::sort(st.symCount.begin(), st.symCount.end());
    }
    std::string r = base;
    if (st.cur) r += "@" + std::to_string(st.cur);
    if (n) r += "#" + std::to_string(n);
    return r;
  }
  V newSym(State& st, const std::string& base, unsigned w, uint64_t dom) {
    // the domain is part of the name: one name never stands for variables of different domains
    std::string nm = symName(st, base) + "~" + std::to_string(dom);
    symNames.insert(nm);
    if (mode == CONCRETE) {
      auto it = model.find(nm);
      uint64_t v = (it == model.end() ? 0 : it->second) & maskw(w);
      return V(v);
    }
    return V(0, z.var(nm, w, false));
  }
  std::string lastSymName;

  void doneInstr(State& st, Frame* f, const Inst& in) {
    if (in.op == O_INVOKE) jump(f, in.b0);
    else f->pc++;
    st.inVis = false;
  }
  void setRes(Frame* f, const Inst& in, V v) { if (in.nd) f->r[in.dst] = v; }

  // returns false when the thread has to give way to the scheduler
  bool builtin(State& st, const Inst& in, Func* callee) {
    Frame* f = top(st);
    auto arg = [&](unsigned i) { return opv(top(st), in.o[in.argOff[i]]); };
    auto str = [&](unsigned i) { return cstr(st, concretize(st, arg(i), 64)); };
    auto fin = [&](V v) { f = top(st); setRes(f, in, v); doneInstr(st, f, in); };
    switch (callee->builtin) {
      case B_POINT: {
        uint64_t a = concretize(st, arg(0), 64);
        if (arrive(st, a, 4, false)) return false;
        fin(V(0));
        return true;
      }
      case B_TOUCH: noteAtomic(st, concretize(st, arg(0), 64), 4); fin(V(0)); return true;
      case B_YIELD:
        if (arrive(st, 0, 0, true)) return false;
        fin(V(0));
        return true;
      case B_AWAIT: {
        uint64_t a = concretize(st, arg(0), 64);
        Thread& T = st.th[st.cur];
        if (T.passed) { T.passed = false; T.st = T_READY; fin(V(0)); return true; }
        T.points++;
        noteAtomic(st, a, 4);
        T.awAddr = a; T.awNe = arg(1).c; T.awVal = (int32_t)arg(2).c;
        T.st = T_AWAIT;
        bool can = enabled(st, st.cur), other = false;
        for (size_t u = 0; u < st.th.size(); u++) if ((int)u != st.cur && enabled(st, u)) other = true;
        if (can && (!st.mt || !isShared(a, 4) || !other)) { T.st = T_READY; fin(V(0)); return true; }
        return false;
      }
      case B_SPAWN: {
        uint64_t fp = concretize(st, arg(0), 64);
        auto it = funcByAddr.find(fp);
        if (it == funcByAddr.end()) unsup("spawn of unknown function");
        V a = arg(1);
        int t = spawn(st, it->second, a);
        fin(V(t));
        return true;
      }
      case B_SELF: fin(V(st.cur)); return true;
      case B_ACQ: acquire(st, concretize(st, arg(0), 64), 1, true); fin(V(0)); return true;
      case B_REL: release(st, concretize(st, arg(0), 64), 1, true, true); fin(V(0)); return true;
      case B_MALLOC: {
        V n = arg(0);
        uint64_t kind = arg(1).c, al = concretize(st, arg(2), 64);
        uint64_t phys = n.c;
        if (!n.sym() && n.c > (1ull << 40)) { fin(V(0)); return true; }
        if (n.sym()) {
          uint64_t lim = 0x80000;
          Z3_ast big = Z3_mk_bvugt(z.c, n.s, z.num(lim, 64));
          int r = z.check(st.D, big);
          checkUnknown(r);
          if (r) {
            Z3_ast small = z.mkNot(big);
            const uint64_t HUGE_LIM = 1ull << 39;
            if (z.check(st.D, small) == 0) {  // always larger: a block of which only the first bytes are accessible
              lim = HUGE_LIM;
              big = Z3_mk_bvugt(z.c, n.s, z.num(lim, 64));
              small = z.mkNot(big);
              r = z.check(st.D, big);
              checkUnknown(r);
              if (r && z.check(st.D, small) == 0) { fin(V(0)); return true; }
            }
            if (r) {
              reach["bounded: symbolic allocation above " + std::to_string(lim >> 10) + " KiB not explored"]++;
              assumeAway(st, big);
              addCond(st, small);
            }
          }
          uint64_t lo = 0, hi = lim;
          while (lo < hi) {
            uint64_t mid = (lo + hi) / 2;
            if (z.check(st.D, Z3_mk_bvugt(z.c, n.s, z.num(mid, 64))) != 0) lo = mid + 1; else hi = mid;
          }
          phys = lo;
        }
        uint64_t arena = arHeap(st.cur);
        if (phys > 0x80000) {
          for (arena = AR_HUGE; arena < st.ar.size() && st.ar[arena]; arena += 4) {}
          if (arena > 253) unsup("too many huge allocations");
        }
        Obj* o = newObj(st, arena, phys, al, K_HEAP, false);
        o->akind = kind;
        if (n.sym()) o->ssize = n;
        if (st.phase == 0 || kind == 7) o->noleak = true;
        fin(V(o->base));
        return true;
      }
      case B_FREE: {
        uint64_t p = concretize(st, arg(0), 64);
        if (!p) { fin(V(0)); return true; }
        uint64_t kind = arg(1).c, al = concretize(st, arg(3), 64);
        V sz = arg(2);
        Slot* s = slotFor(st, p, true);
        if (!s || adArena(p) < 8 || (adArena(p) - 8) % 4 != 1) throw Violation{"bad-free", "release of " + descr(p) + " which is no heap block"};
        if (s->freed) throw Violation{"double-free", "second release of " + descr(p)};
        Obj* o = s->o.p;
        if (!o || o->base != p) throw Violation{"bad-free", "release of a pointer into the middle of " + descr(p)};
        if (o->akind != kind) throw Violation{"mismatched-free", descr(p) + " allocated with kind " + std::to_string(o->akind) + " released with kind " + std::to_string(kind)};
        if ((al > 16 ? al : 16) != (o->align > 16 ? o->align : 16)) throw Violation{"mismatched-free", descr(p) + " allocated with alignment " + std::to_string(o->align) + " released with " + std::to_string(al)};
        if (sz.sym() || (int64_t)sz.c >= 0) {
          V have = o->ssize.sym() ? o->ssize : V(o->size);
          V eq = icmp(llvm::CmpInst::ICMP_EQ, sz, have, 64);
          if (!eq.sym()) { if (!eq.c) throw Violation{"mismatched-free", descr(p) + " of size " + std::to_string(o->size) + " released with size " + std::to_string((int64_t)sz.c)}; }
          else if (z.check(st.D, z.mkNot(eq.s)) != 0) throw Violation{"mismatched-free", descr(p) + " released with a different size", z.mkNot(eq.s)};
        }
        race(st, s, 0, std::max<uint64_t>(o->d.size(), 1), true, false, 0, true);
        s = slotFor(st, p, true);
        if (st.mt) {
          auto lo = std::lower_bound(st.sync.begin(), st.sync.end(), p, [](const SyncLoc& l, uint64_t x) { return l.addr < x; });
          auto hi = lo;
          while (hi != st.sync.end() && hi->addr < p + o->size) ++hi;
          st.sync.erase(lo, hi);
        }
        s->freed = true;
        s->o = Ref<Obj>();
        s->sh = Ref<Shadow>();
        fin(V(0));
        return true;
      }
      case B_SYM: {
        std::string nm = str(0);
        unsigned w = concretize(st, arg(1), 32);
        V v = newSym(st, nm, w, w);
        if (mode == CONCRETE) st.symLog.push_back({nm, v.c});
        fin(z.zext(v, w, 64));
        return true;
      }
      case B_RANGE: {
        std::string nm = str(0);
        int64_t lo = (int64_t)concretize(st, arg(1), 64), hi = (int64_t)concretize(st, arg(2), 64);
        if (lo > hi) unsup("empty range " + nm);
        uint64_t span = (uint64_t)hi - (uint64_t)lo;
        if (span == 0) { if (mode == CONCRETE) st.symLog.push_back({nm, (uint64_t)lo}); fin(V((uint64_t)lo)); return true; }
        unsigned w = 1;
        while (w < 64 && maskw(w) < span) w++;
        V v = newSym(st, nm, w, span);
        if (mode == CONCRETE) {
          if (v.c > span) v.c = 0;
          st.symLog.push_back({nm, v.c + (uint64_t)lo});
          fin(V(v.c + (uint64_t)lo));
          return true;
        }
        if (maskw(w) != span) {
          Z3_ast ax = Z3_mk_bvule(z.c, z.t(v, w), z.num(span, w));
          if (domainSet.insert(ax).second) domain.push_back(ax);
          addCond(st, ax);
        }
        fin(binop(st, llvm::Instruction::Add, z.zext(v, w, 64), V((uint64_t)lo), 64));
        return true;
      }
      case B_CHOICE: {
        // the variable is split at once; naming must not advance twice when the instruction is re-executed
        std::string nm = str(0);
        uint64_t n = concretize(st, arg(1), 32);
        if (n <= 1) { if (mode == CONCRETE) st.symLog.push_back({nm, 0}); fin(V(0)); return true; }
        auto saved = st.symCount;
        unsigned w = 1;
        while (maskw(w) < n - 1) w++;
        V v = newSym(st, nm, w, n);
        uint64_t x;
        if (mode == CONCRETE) { x = v.c < n ? v.c : 0; st.symLog.push_back({nm, x}); }
        else {
          auto after = st.symCount;
          if (maskw(w) != n - 1) {
            Z3_ast ax = w == 1 ? z.tru : Z3_mk_bvule(z.c, v.s, z.num(n - 1, w));
            if (ax != z.tru) { if (domainSet.insert(ax).second) domain.push_back(ax); addCond(st, ax); }
          }
          st.symCount = saved;
          if (mode == RANDOM) { x = rng() % n; Z3_ast e = w == 1 ? (x ? v.s : z.mkNot(v.s)) : Z3_mk_eq(z.c, v.s, z.num(x, w));
            if (z.check(st.D, e) == 0) x = concretize(st, v, w); else addCond(st, e); }
          else x = concretize(st, v, w, "choice");
          st.symCount = after;
        }
        fin(V(x));
        return true;
      }
      case B_CONCRETE: { uint64_t x = concretize(st, arg(0), 64); fin(V(x)); return true; }
      case B_ASSUME: {
        V c = arg(0);
        V b = icmp(llvm::CmpInst::ICMP_NE, c, V(0), 32);
        if (!b.sym()) { if (!b.c) throw EndPath{1}; fin(V(0)); return true; }
        int r = z.check(st.D, b.s);
        checkUnknown(r);
        if (r == 0) throw EndPath{1};
        if (z.check(st.D, z.mkNot(b.s)) != 0) { assumeAway(st, z.mkNot(b.s)); addCond(st, b.s); }
        fin(V(0));
        return true;
      }
      case B_ASSERT: {
        V c = arg(0);
        nAsserts++;
        V b = icmp(llvm::CmpInst::ICMP_NE, c, V(0), 32);
        if (!b.sym()) {
          if (!b.c) throw Violation{"assertion", cstr(st, concretize(st, arg(1), 64))};
        } else {
          nAssertSym++;
          Z3_ast nb = z.mkNot(b.s);
          int r = z.check(st.D, nb);
          checkUnknown(r);
          if (r == 1 || (r < 0 && false)) {
            Violation v{"assertion", cstr(st, concretize(st, arg(1), 64)), nb};
            if (z.check(st.D, b.s) != 0 && mode == EXPLORE) { record(st, v); addCond(st, b.s); }
            else throw v;
          }
        }
        fin(V(0));
        return true;
      }
      case B_REACH: reach[str(0)]++; fin(V(0)); return true;
      case B_LOG: {
        V v = arg(0);
        if (mode == CONCRETE) st.log.push_back(v.c);
        fin(V(0));
        return true;
      }
      case B_EXPTERM: st.expectTerm = true; fin(V(0)); return true;
      case B_END: reach["vs_end"]++; throw EndPath{0};
      case B_ALLOWBLK: st.allowBlocked = true; fin(V(0)); return true;
      case B_ALLOWLEAK: st.allowLeaks = true; fin(V(0)); return true;
      case B_HEAPLIVE: fin(V(heapLive(st))); return true;
      case B_RAISE: unwind(st, concretize(st, arg(0), 64)); return true;
      case B_TERMINATE: doTerminate(st, "called"); return true;
      case B_ABORT: throw Violation{"abort", "abort() called"};
      case B_DIE: throw Violation{"exit", "process exit from library code"};
      case B_ASSERTFAIL: throw Violation{"assert-failed", "assert(" + str(0) + ") in " + str(1) + ":" + std::to_string(arg(2).c)};
      case B_PUREVIRT: throw Violation{"pure-virtual-call", "pure virtual function called"};
      case B_VRANGE: {
        uint64_t p = objectOf(st, arg(0));
        V n = arg(1);
        Slot* s = p < 0x10000 ? nullptr : slotFor(st, p, false);
        if (!s || s->freed || !s->o) { fin(V(0)); return true; }
        Obj* o = s->o.p;
        V have = o->ssize.sym() ? o->ssize : V(o->size);
        V off = arg(0).sym() ? binop(st, llvm::Instruction::Sub, arg(0), V(o->base), 64) : V(p - o->base);
        // off <= have && n <= have - off
        V c1 = icmp(llvm::CmpInst::ICMP_ULE, off, have, 64);
        V c2 = icmp(llvm::CmpInst::ICMP_ULE, n, binop(st, llvm::Instruction::Sub, have, off, 64), 64);
        V b = binop(st, llvm::Instruction::And, c1, c2, 1);
        fin(z.zext(b, 1, 32));
        return true;
      }
      case B_BLOCKID: {
        uint64_t p = objectOf(st, arg(0));
        Slot* s = p < 0x10000 ? nullptr : slotFor(st, p, false);
        fin(V(!s || s->freed || !s->o ? 0 : s->o->base));
        return true;
      }
      case B_MEMCPY: case B_MEMMOVE: {
        uint64_t d = concretize(st, arg(0), 64), s = concretize(st, arg(1), 64), n = concretize(st, arg(2), 64, "copy length");
        V r = arg(0);
        copyBytes(st, d, s, n, "copy");
        fin(r);
        return true;
      }
      case B_MEMSET: {
        uint64_t d = concretize(st, arg(0), 64), n = concretize(st, arg(2), 64, "fill length");
        V v = arg(1), r = arg(0);
        if (n) {
          Slot* s = access(st, d, n, true, 1, "fill");
          race(st, s, d - s->o->base, n, true, false, 0);
          s = slotFor(st, d, true);
          Obj* o = wr(s);
          unsigned w = callee->F->isIntrinsic() ? 8 : 32;
          V b = w == 8 ? v : z.trunc(v, 32, 8);
          for (uint64_t i = 0; i < n; i++) wrBytes(o, d - o->base + i, b, 8);
        }
        fin(r);
        return true;
      }
      case B_MEMCMP: {
        uint64_t a = concretize(st, arg(0), 64), b = concretize(st, arg(1), 64), n = concretize(st, arg(2), 64, "compare length");
        int r = 0;
        std::vector<std::pair<V, V>> rest;
        for (uint64_t i = 0; i < n && !r; i++) {
          V x = load(st, a + i, 8), y = load(st, b + i, 8);
          if (!rest.empty() || x.sym() || y.sym()) { if (!(x == y)) rest.push_back({x, y}); continue; }
          r = x.c < y.c ? -1 : x.c > y.c ? 1 : 0;
        }
        if (!rest.empty()) {
          Z3_ast e = z.num(0, 32);
          for (size_t i = rest.size(); i-- > 0;) {
            Z3_ast x = z.t(rest[i].first, 8), y = z.t(rest[i].second, 8);
            e = Z3_mk_ite(z.c, Z3_mk_eq(z.c, x, y), e, Z3_mk_ite(z.c, Z3_mk_bvult(z.c, x, y), z.num(maskw(32), 32), z.num(1, 32)));
          }
          fin(z.simp(e, 32));
          return true;
        }
        fin(V((uint32_t)r));
        return true;
      }
      case B_STRLEN: fin(V(str(0).size())); return true;
      case B_STRCMP: { int r = str(0).compare(str(1)); fin(V((uint32_t)(r < 0 ? -1 : r > 0))); return true; }
      case B_ATEXIT: case B_NOP0: case B_PAUSE: fin(V(0)); return true;
      case B_ARG0: fin(arg(0)); return true;   // output to a stream
      case B_WCAS: st.wcas = arg(0).c; fin(V(0)); return true;
      case B_INTRIN: return intrinsic(st, in, callee);
    }
    unsup("external function " + callee->name);
  }
  void assumeAway(State& st, Z3_ast c) {
    if (mode != EXPLORE || !keepPcs) return;
    std::vector<Z3_ast> q = st.D;
    q.push_back(c);
    if (st.S) q.push_back(st.S);
    terminalPcs.push_back(Z3_mk_and(z.c, q.size(), q.data()));
  }
  uint64_t heapLive(State& st) {
    uint64_t n = 0;
    for (size_t a = 9; a < st.ar.size(); a += 4)
      if (st.ar[a]) for (size_t i = 1; i < st.ar[a]->s.size(); i++) { auto& s = st.ar[a]->s[i]; if (s.o && !s.freed && !s.o->noleak) n++; }
    return n;
  }
  bool intrinsic(State& st, const Inst& in, Func* callee) {
    using I = llvm::Intrinsic::IndependentIntrinsics;
    Frame* f = top(st);
    auto arg = [&](unsigned i) { return opv(f, in.o[in.argOff[i]]); };
    auto fin = [&](V v) { f = top(st); setRes(f, in, v); doneInstr(st, f, in); };
    unsigned w = in.w;
    switch (callee->F->getIntrinsicID()) {
      case I::memcpy: case I::memcpy_inline: case I::memmove: {
        uint64_t d = concretize(st, arg(0), 64), s = concretize(st, arg(1), 64), n = concretize(st, arg(2), 64, "copy length");
        copyBytes(st, d, s, n, "copy");
        fin(V(0));
        return true;
      }
      case I::memset: case I::memset_inline: {
        uint64_t d = concretize(st, arg(0), 64), n = concretize(st, arg(2), 64, "fill length");
        V v = arg(1);
        if (n) {
          Slot* s = access(st, d, n, true, 1, "fill");
          race(st, s, d - s->o->base, n, true, false, 0);
          s = slotFor(st, d, true);
          Obj* o = wr(s);
          for (uint64_t i = 0; i < n; i++) wrBytes(o, d - o->base + i, v, 8);
        }
        fin(V(0));
        return true;
      }
      case I::uadd_with_overflow: case I::sadd_with_overflow: case I::usub_with_overflow: case I::ssub_with_overflow:
      case I::umul_with_overflow: case I::smul_with_overflow: {
        w = in.ws[0];
        auto id = callee->F->getIntrinsicID();
        bool sg = id == I::sadd_with_overflow || id == I::ssub_with_overflow || id == I::smul_with_overflow;
        V a = arg(0), b = arg(1);
        V r, o;
        int k = (id == I::uadd_with_overflow || id == I::sadd_with_overflow) ? 0 : (id == I::usub_with_overflow || id == I::ssub_with_overflow) ? 1 : 2;
        if (!a.sym() && !b.sym()) {
          __int128 x = sg ? (__int128)sextw(a.c, w) : (__int128)(a.c & maskw(w));
          __int128 y = sg ? (__int128)sextw(b.c, w) : (__int128)(b.c & maskw(w));
          __int128 q = k == 0 ? x + y : k == 1 ? x - y : x * y;
          uint64_t lo = (uint64_t)q & maskw(w);
          __int128 back = sg ? (__int128)sextw(lo, w) : (__int128)lo;
          r = V(lo);
          o = V(back != q);
        } else {
          Z3_context c = z.c;
          unsigned W = 2 * w + 1;
          Z3_ast x = z.t(a, w), y = z.t(b, w);
          Z3_ast X = sg ? Z3_mk_sign_ext(c, W - w, x) : Z3_mk_zero_ext(c, W - w, x), Y = sg ? Z3_mk_sign_ext(c, W - w, y) : Z3_mk_zero_ext(c, W - w, y);
          Z3_ast q = k == 0 ? Z3_mk_bvadd(c, X, Y) : k == 1 ? Z3_mk_bvsub(c, X, Y) : Z3_mk_bvmul(c, X, Y);
          Z3_ast lo = Z3_mk_extract(c, w - 1, 0, q);
          Z3_ast bk = sg ? Z3_mk_sign_ext(c, W - w, lo) : Z3_mk_zero_ext(c, W - w, lo);
          r = z.simp(lo, w);
          o = z.simp(z.mkNot(Z3_mk_eq(c, bk, q)), 1);
        }
        f->r[in.dst] = r;
        f->r[in.dst + 1] = o;
        doneInstr(st, f, in);
        return true;
      }
      case I::assume: {
        for (auto& b : in.bundleAlign) {
          uint64_t p = concretize(st, opv(top(st), b[0]), 64), al = concretize(st, opv(top(st), b[1]), 64);
          uint64_t off = b.size() > 2 ? concretize(st, opv(top(st), b[2]), 64) : 0;
          if (al && ((p - off) & (al - 1))) throw Violation{"misaligned", descr(p) + " assumed to be aligned to " + std::to_string(al)};
        }
        V c = opv(top(st), in.o[in.argOff[0]]);
        if (c.sym()) {
          int r = z.check(st.D, z.mkNot(c.s));
          checkUnknown(r);
          if (r) throw Violation{"undefined-behaviour", "false assumption", z.mkNot(c.s)};
        } else if (!(c.c & 1)) throw Violation{"undefined-behaviour", "false assumption"};
        fin(V(0));
        return true;
      }
      case I::expect: case I::expect_with_probability: case I::launder_invariant_group: case I::strip_invariant_group:
      case I::ptr_annotation: case I::threadlocal_address: case I::ssa_copy: {
        V v = arg(0);
        if (callee->F->getIntrinsicID() == I::threadlocal_address) v = tlsAddr(st, v);
        fin(v);
        return true;
      }
      case I::eh_typeid_for: fin(V(typeSel(arg(0).c))); return true;
      case I::trap: case I::ubsantrap: throw Violation{"trap", "llvm.trap reached"};
      case I::debugtrap: fin(V(0)); return true;
      case I::ctlz: case I::cttz: case I::ctpop: case I::bswap: {
        V a = arg(0);
        auto id = callee->F->getIntrinsicID();
        if (a.sym() && w > 1) {
          Z3_ast x = z.t(a, w), r = nullptr;
          auto bit = [&](unsigned i) { return Z3_mk_extract(z.c, i, i, x); };
          if (id == I::bswap) {
            for (unsigned i = 0; i < w / 8; i++) { Z3_ast e = Z3_mk_extract(z.c, 8 * i + 7, 8 * i, x); r = r ? Z3_mk_concat(z.c, r, e) : e; }
          } else if (id == I::ctpop) {
            for (unsigned i = 0; i < w; i++) { Z3_ast e = Z3_mk_zero_ext(z.c, w - 1, bit(i)); r = r ? Z3_mk_bvadd(z.c, r, e) : e; }
          } else {
            r = z.num(w, w);
            for (unsigned k = 0; k < w; k++) {
              unsigned i = id == I::ctlz ? k : w - 1 - k;   // the deciding bit last
              r = Z3_mk_ite(z.c, Z3_mk_eq(z.c, bit(i), z.num(1, 1)), z.num(id == I::ctlz ? w - 1 - i : i, w), r);
            }
          }
          fin(z.simp(r, w));
          return true;
        }
        uint64_t x = concretize(st, a, w) & maskw(w), r = 0;
        switch (id) {
          case I::ctlz: r = x ? __builtin_clzll(x) - (64 - w) : w; break;
          case I::cttz: r = x ? __builtin_ctzll(x) : w; break;
          case I::ctpop: r = __builtin_popcountll(x); break;
          default: r = __builtin_bswap64(x) >> (64 - w);
        }
        fin(V(r));
        return true;
      }
      case I::ceil: case I::floor: case I::trunc: case I::round: case I::fabs: case I::sqrt: case I::rint: case I::nearbyint: {
        double x = asD(concretize(st, arg(0), w), w), r = 0;
        switch (callee->F->getIntrinsicID()) {
          case I::ceil: r = __builtin_ceil(x); break;
          case I::floor: r = __builtin_floor(x); break;
          case I::trunc: r = __builtin_trunc(x); break;
          case I::round: r = __builtin_round(x); break;
          case I::fabs: r = __builtin_fabs(x); break;
          case I::sqrt: r = __builtin_sqrt(x); break;
          default: r = __builtin_rint(x);
        }
        fin(V(fromD(r, w)));
        return true;
      }
      case I::umin: case I::umax: case I::smin: case I::smax: {
        V a = arg(0), b = arg(1);
        auto id = callee->F->getIntrinsicID();
        using C = llvm::CmpInst;
        V c = icmp(id == I::umin ? C::ICMP_ULT : id == I::umax ? C::ICMP_UGT : id == I::smin ? C::ICMP_SLT : C::ICMP_SGT, a, b, w);
        fin(c.sym() ? ite(c, a, b, w) : c.c ? a : b);
        return true;
      }
      case I::abs: {
        V a = arg(0);
        V c = icmp(llvm::CmpInst::ICMP_SLT, a, V(0), w), n = binop(st, llvm::Instruction::Sub, V(0), a, w);
        fin(c.sym() ? ite(c, n, a, w) : c.c ? n : a);
        return true;
      }
      case I::stacksave: fin(V(0)); return true;
      case I::stackrestore: fin(V(0)); return true;
      case I::is_constant: fin(V(0)); return true;
      case I::objectsize: fin(V(maskw(w))); return true;
      case I::prefetch: case I::var_annotation: case I::donothing: case I::sideeffect: fin(V(0)); return true;
      case I::fshl: case I::fshr: {
        V va = arg(0), vb = opv(top(st), in.o[in.argOff[1]]);
        if (va.sym() || vb.sym()) {
          uint64_t s = concretize(st, opv(top(st), in.o[in.argOff[2]]), w) % w;
          bool l = callee->F->getIntrinsicID() == I::fshl;
          Z3_ast cc = Z3_mk_concat(z.c, z.t(va, w), z.t(vb, w));
          unsigned lo = l ? w - s : s;   // fshl: the top w bits of cc << s; fshr: the low w bits of cc >> s
          fin(z.simp(Z3_mk_extract(z.c, lo + w - 1, lo, cc), w));
          return true;
        }
        uint64_t a = concretize(st, arg(0), w), b = concretize(st, opv(top(st), in.o[in.argOff[1]]), w), s = concretize(st, opv(top(st), in.o[in.argOff[2]]), w) % w;
        uint64_t r = callee->F->getIntrinsicID() == I::fshl ? (s ? (a << s) | (b >> (w - s)) : a) : (s ? (b >> s) | (a << (w - s)) : b);
        fin(V(r & maskw(w)));
        return true;
      }
      default: {
        std::string n = callee->name;
        if (n.find("x86.sse2.pause") != std::string::npos) { fin(V(0)); return true; }
        unsup("intrinsic " + n);
      }
    }
  }
  V tlsAddr(State& st, V v) {
    uint64_t sl = adSlot(v.c);
    if (adArena(v.c) == AR_GLOB && sl - 1 < m.globals.size() && m.globals[sl - 1].tls) {
      Global& g = m.globals[sl - 1];
      return V(mkAddr(arTls(st.cur), g.tlsIdx, slotBaseOff(g.align)) + (v.c - g.addr));
    }
    return v;
  }

  // executes the current thread until it has to give way (returns); ends by exception EndPath / Violation
  void exec(State& st) {
    for (;;) {
      Thread& T = st.th[st.cur];
      if (T.fr.empty()) {
        if (!T.queue.empty()) {
          Func* q = T.queue.front();
          if (q->name == "vsrt_run_exit" && st.allowBlocked) { T.st = T_DONE; return; }
          T.queue.erase(T.queue.begin());
          if (q == entryFunc && st.cur == 0) st.phase = 1;
          pushFrame(st, st.cur, q, {});
          continue;
        }
        T.st = T_DONE;
        return;
      }
      Frame* f = top(st);
      const Inst& in = f->f->code[f->pc];
      nInstr++;
      in.seen |= 1;
      if (++st.steps > opt.maxSteps) throw Violation{"no-progress", "no termination within " + std::to_string(opt.maxSteps) + " instructions of one thread"};
      if ((nInstr & 0xfffff) == 0 && elapsed() > opt.timeLimit * 1.5) { incomplete = true; incompleteWhy = "time limit"; throw EndPath{2}; }
      switch (in.op) {
        case O_NOP: f->pc++; break;
        case O_SCOPE: {  // begin or end of the scope of a stack object: its contents are gone
          V p = opv(f, in.o[0]);
          Slot* s = p.sym() ? nullptr : slotFor(st, p.c, true);
          if (s && !s->freed && s->o && s->o->kind == K_STACK && s->o->base == p.c) {
            if (in.size) race(st, s, 0, s->o->size, true, false, 0);
            s = slotFor(st, p.c, true);
            Obj* o = wr(s);
            o->init.assign(o->d.size(), 0);
            std::fill(o->d.begin(), o->d.end(), 0);
            o->sym.clear();
          }
          f->pc++;
          break;
        }
        case O_BR: jump(f, in.b0); break;
        case O_CBR: {
          V c = opv(f, in.o[0]);
          bool b;
          if (!c.sym()) b = c.c & 1;
          else { b = decide(st, c); f = top(st); }
          in.seen |= b ? 2 : 4;
          jump(f, b ? in.b0 : in.b1);
          break;
        }
        case O_SWITCH: {
          V c = opv(f, in.o[0]);
          uint64_t x = c.c & maskw(in.w);
          if (c.sym()) { x = concretize(st, c, in.w, "switch"); f = top(st); }
          uint32_t t = in.b0;
          for (auto& k : in.cases) if (k.first == x) { t = k.second; break; }
          jump(f, t);
          break;
        }
        case O_UNREACHABLE: throw Violation{"undefined-behaviour", "unreachable code reached (broken KELCORO_ASSUME or missing return)"};
        case O_RESUME: unwind(st, opv(f, in.o[0]).c); break;
        case O_LANDINGPAD: f->r[in.dst] = T.excPtr; f->r[in.dst + 1] = V(T.excSel); f->pc++; break;
        case O_SELECT: {
          V c = opv(f, in.o[0]);
          for (unsigned i = 0; i < in.nd; i++) {
            V a = opv(f, in.o[1 + i]), b = opv(f, in.o[1 + in.nd + i]);
            f->r[in.dst + i] = c.sym() ? ite(c, a, b, in.ws[i]) : (c.c & 1) ? a : b;
          }
          f->pc++;
          break;
        }
        case O_ALLOCA: {
          uint64_t n = concretize(st, opv(f, in.o[0]), 64, "alloca size");
          Obj* o = newObj(st, arStack(st.cur), in.size * n, std::max<uint32_t>(in.align, 1), K_STACK, false);
          f = top(st);
          f->r[in.dst] = V(o->base);
          f->pc++;
          break;
        }
        case O_LOAD: {
          V p = opv(f, in.o[0]);
          uint64_t a = p.c;
          if (p.sym()) { a = concretize(st, p, 64, "pointer"); f = top(st); }
          if (a && a < (AR_FUNC << 40)) a = tlsAddr(st, V(a)).c;
          unsigned n = in.ws.size() == 1 ? (in.ws[0] + 7) / 8 : in.offs.back() + (in.ws.back() + 7) / 8;
          if (in.ord && !f->f->rt) {
            if (arrive(st, a, n, false)) return;
          }
          Slot* s = access(st, a, n, false, in.align, "read");
          race(st, s, a - s->o->base, n, false, in.ord != 0, 0);
          if (in.ord && !f->f->rt) acquire(st, a, n, isAcq(in.ord));
          if (in.ws.size() == 1) f->r[in.dst] = rdBytes(st, s->o.p, a - s->o->base, in.ws[0]);
          else for (unsigned i = 0; i < in.ws.size(); i++) f->r[in.dst + i] = rdBytes(st, s->o.p, a - s->o->base + in.offs[i], in.ws[i]);
          f->pc++;
          st.inVis = false;
          break;
        }
        case O_STORE: {
          V p = opv(f, in.o[0]);
          uint64_t a = p.c;
          if (p.sym()) { a = concretize(st, p, 64, "pointer"); f = top(st); }
          if (a && a < (AR_FUNC << 40)) a = tlsAddr(st, V(a)).c;
          if (in.ws.empty()) { f->pc++; break; }
          unsigned n = in.offs.back() + (in.ws.back() + 7) / 8;
          if (in.ord && !f->f->rt) {
            if (arrive(st, a, n, false)) return;
          }
          Slot* s = access(st, a, n, true, in.align, "write");
          race(st, s, a - s->o->base, n, true, in.ord != 0, 0);
          if (st.mt) {
            s = slotFor(st, a, true);
            if (in.ord && !f->f->rt) release(st, a, n, isRel(in.ord), false);
          }
          Obj* o = wr(s);
          for (unsigned i = 0; i < in.ws.size(); i++) wrBytes(o, a - o->base + in.offs[i], opv(f, in.o[1 + i]), in.ws[i]);
          f->pc++;
          st.inVis = false;
          break;
        }
        case O_GEP: {
          V p = opv(f, in.o[0]);
          if (in.coff) p = p.sym() ? binop(st, llvm::Instruction::Add, p, V((uint64_t)in.coff), 64) : V(p.c + in.coff);
          for (size_t i = 0; i < in.scales.size(); i++) {
            V x = opv(f, in.o[1 + i]);
            if (!x.sym() && !p.sym()) { p.c += (uint64_t)(sextw(x.c, in.iw[i]) * in.scales[i]); continue; }
            x = in.iw[i] < 64 ? z.sext(x, in.iw[i], 64) : x;
            x = binop(st, llvm::Instruction::Mul, x, V((uint64_t)in.scales[i]), 64);
            p = binop(st, llvm::Instruction::Add, p, x, 64);
          }
          f->r[in.dst] = p;
          f->pc++;
          break;
        }
        case O_ICMP: {
          V r = icmp(in.pred, opv(f, in.o[0]), opv(f, in.o[1]), in.w2);
          f->r[in.dst] = r;
          f->pc++;
          break;
        }
        case O_BIN: {
          V r = binop(st, in.pred, opv(f, in.o[0]), opv(f, in.o[1]), in.w);
          f->r[in.dst] = r;
          f->pc++;
          break;
        }
        case O_ZEXT: f->r[in.dst] = z.zext(opv(f, in.o[0]), in.w2, in.w); f->pc++; break;
        case O_SEXT: f->r[in.dst] = z.sext(opv(f, in.o[0]), in.w2, in.w); f->pc++; break;
        case O_TRUNC: {
          V v = opv(f, in.o[0]);
          if (v.sym() && in.w == 1) v = z.simp(Z3_mk_eq(z.c, Z3_mk_extract(z.c, 0, 0, v.s), Z3_mk_unsigned_int64(z.c, 1, z.bvs(1))), 1);
          else v = z.trunc(v, in.w2, in.w);
          f->r[in.dst] = v;
          f->pc++;
          break;
        }
        case O_MOV: case O_EXTRACT: case O_INSERT:
          if (in.nd == 1) f->r[in.dst] = opv(f, in.o[0]);
          else {
            V tmp[64];
            if (in.nd > 64) unsup("large aggregate");
            for (unsigned i = 0; i < in.nd; i++) tmp[i] = opv(f, in.o[i]);
            for (unsigned i = 0; i < in.nd; i++) f->r[in.dst + i] = tmp[i];
          }
          f->pc++;
          break;
        case O_CMPXCHG: {
          V p = opv(f, in.o[0]);
          uint64_t a = concretize(st, p, 64, "pointer");
          a = tlsAddr(st, V(a)).c;
          unsigned n = (in.w + 7) / 8;
          if (!top(st)->f->rt && arrive(st, a, n, false)) return;
          Slot* s = access(st, a, n, true, in.align, "atomic access");
          bool eq;
          V old = rdBytes(st, s->o.p, a - s->o->base, in.w);
          eq = decide(st, icmp(llvm::CmpInst::ICMP_EQ, old, opv(top(st), in.o[1]), in.w));
          bool spur = false;
          if (eq && in.weak && st.wcas > 0) {
            std::string nm = "wcas_t" + std::to_string(st.cur) + "_p" + std::to_string(st.th[st.cur].points);
            if (mode == CONCRETE) { auto it = model.find(nm); spur = it != model.end() && it->second; }
            else spur = decide(st, V(0, z.var(nm, 1, false)));
          }
          if (spur) st.wcas--;
          bool ok = eq && !spur;
          s = slotFor(st, a, true);
          race(st, s, a - s->o->base, n, ok, true, 0);
          f = top(st);
          if (!f->f->rt) acquire(st, a, n, isAcq(ok ? in.ord : in.ordFail));
          if (ok) {
            if (!f->f->rt) release(st, a, n, isRel(in.ord), true);
            s = slotFor(st, a, true);
            wrBytes(wr(s), a - s->o->base, opv(f, in.o[2]), in.w);
          }
          f->r[in.dst] = old;
          f->r[in.dst + 1] = V(ok);
          f->pc++;
          st.inVis = false;
          break;
        }
        case O_RMW: {
          V p = opv(f, in.o[0]);
          uint64_t a = concretize(st, p, 64, "pointer");
          a = tlsAddr(st, V(a)).c;
          unsigned n = (in.w + 7) / 8;
          if (!top(st)->f->rt && arrive(st, a, n, false)) return;
          Slot* s = access(st, a, n, true, in.align, "atomic access");
          race(st, s, a - s->o->base, n, true, true, 0);
          f = top(st);
          if (!f->f->rt) {
            acquire(st, a, n, isAcq(in.ord));
            release(st, a, n, isRel(in.ord), true);
          }
          s = slotFor(st, a, true);
          V old = rdBytes(st, s->o.p, a - s->o->base, in.w), x = opv(f, in.o[1]), nv;
          using R = llvm::AtomicRMWInst;
          using L = llvm::Instruction;
          using C = llvm::CmpInst;
          auto pick = [&](unsigned pr) { V c = icmp(pr, old, x, in.w); return c.sym() ? ite(c, old, x, in.w) : c.c ? old : x; };
          switch (in.pred) {
            case R::Xchg: nv = x; break;
            case R::Add: nv = binop(st, L::Add, old, x, in.w); break;
            case R::Sub: nv = binop(st, L::Sub, old, x, in.w); break;
            case R::And: nv = binop(st, L::And, old, x, in.w); break;
            case R::Or: nv = binop(st, L::Or, old, x, in.w); break;
            case R::Xor: nv = binop(st, L::Xor, old, x, in.w); break;
            case R::Nand: nv = binop(st, L::Xor, binop(st, L::And, old, x, in.w), V(maskw(in.w)), in.w); break;
            case R::Max: nv = pick(C::ICMP_SGT); break;
            case R::Min: nv = pick(C::ICMP_SLT); break;
            case R::UMax: nv = pick(C::ICMP_UGT); break;
            case R::UMin: nv = pick(C::ICMP_ULT); break;
            default: unsup("atomicrmw");
          }
          wrBytes(wr(s), a - s->o->base, nv, in.w);
          f->r[in.dst] = old;
          f->pc++;
          st.inVis = false;
          break;
        }
        case O_FENCE:
          if (st.mt) {
            if (isAcq(in.ord)) { VC x = T.acqPend; join(T.vc, x); }
            if (isRel(in.ord)) { T.relFence = T.vc; T.hasRelFence = true; T.vc[st.cur]++; }
          }
          f->pc++;
          break;
        case O_FBIN: {
          V a = opv(f, in.o[0]), b = in.pred == 255 ? V(0) : opv(f, in.o[1]);
          if (a.sym() || b.sym()) unsup("symbolic floating point");
          double x = asD(a.c, in.w), y = asD(b.c, in.w), r = 0;
          switch (in.pred) {
            case 255: r = -x; break;
            case llvm::Instruction::FAdd: r = x + y; break;
            case llvm::Instruction::FSub: r = x - y; break;
            case llvm::Instruction::FMul: r = x * y; break;
            case llvm::Instruction::FDiv: r = x / y; break;
            default: unsup("float op");
          }
          f->r[in.dst] = V(fromD(r, in.w));
          f->pc++;
          break;
        }
        case O_FCMP: {
          V a = opv(f, in.o[0]), b = opv(f, in.o[1]);
          if (a.sym() || b.sym()) unsup("symbolic floating point");
          double x = asD(a.c, in.w2), y = asD(b.c, in.w2);
          bool u = std::isnan(x) || std::isnan(y), r;
          unsigned p = in.pred & 7;  // bit0 eq, bit1 gt, bit2 lt, bit3 unordered
          r = u ? (in.pred & 8) != 0 : ((p & 1) && x == y) || ((p & 2) && x > y) || ((p & 4) && x < y);
          f->r[in.dst] = V(r);
          f->pc++;
          break;
        }
        case O_FCAST: {
          V a = opv(f, in.o[0]);
          if (a.sym()) unsup("symbolic floating point");
          using I = llvm::Instruction;
          uint64_t r;
          switch (in.pred) {
            case I::FPExt: case I::FPTrunc: r = fromD(asD(a.c, in.w2), in.w); break;
            case I::UIToFP: r = fromD((double)(a.c & maskw(in.w2)), in.w); break;
            case I::SIToFP: r = fromD((double)sextw(a.c, in.w2), in.w); break;
            case I::FPToUI: r = (uint64_t)asD(a.c, in.w2) & maskw(in.w); break;
            case I::FPToSI: r = (uint64_t)(int64_t)asD(a.c, in.w2) & maskw(in.w); break;
            default: unsup("cast");
          }
          f->r[in.dst] = V(r);
          f->pc++;
          break;
        }
        case O_CALL: case O_INVOKE: {
          Func* cal = in.callee;
          if (in.isIndirect) {
            uint64_t fp = concretize(st, opv(f, in.o[0]), 64, "function pointer");
            f = top(st);
            auto it = funcByAddr.find(fp);
            if (it == funcByAddr.end()) {
              if (fp < 0x10000) throw Violation{"null-pointer", "call through a null function pointer"};
              Slot* s = slotFor(st, fp, false);
              throw Violation{s && s->freed ? "use-after-free" : "wild-pointer", "call through " + descr(fp)};
            }
            cal = it->second;
          }
          if (cal->builtin >= 0) {
            if (!builtin(st, in, cal)) return;
            break;
          }
          if (cal->F->isDeclaration()) {
            if (cal->F->isIntrinsic()) { if (!intrinsic(st, in, cal)) return; break; }
            unsup("external function " + cal->name);
          }
          call(st, in, cal);
          break;
        }
        case O_RET: {
          V rv[64];
          unsigned n = in.o.size();
          if (n > 64) unsup("large return value");
          for (unsigned i = 0; i < n; i++) rv[i] = opv(f, in.o[i]);
          uint32_t base = f->stackBase;
          T.fr.pop_back();
          popStackObjs(st, st.cur, base);
          if (!st.th[st.cur].fr.empty()) {
            Frame* c = top(st);
            const Inst& ci = c->f->code[c->pc];
            for (unsigned i = 0; i < ci.nd && i < n; i++) c->r[ci.dst + i] = rv[i];
            doneInstr(st, c, ci);
          }
          break;
        }
        case O_UNSUPPORTED: {
          std::string s;
          llvm::raw_string_ostream os(s);
          in.I->print(os);
          unsup("instruction " + os.str());
        }
      }
    }
  }
  void call(State& st, const Inst& in, Func* cal) {
    Frame* f = top(st);
    std::vector<V> args;
    size_t na = in.byval.size();
    for (size_t i = 0; i < na; i++)
      for (uint32_t k = in.argOff[i]; k < in.argOff[i + 1]; k++) args.push_back(opv(f, in.o[k]));
    if (in.mustTail) {
      uint32_t base = f->stackBase;
      // the frame that called us receives the result
      st.th[st.cur].fr.pop_back();
      popStackObjs(st, st.cur, base);
      pushFrame(st, st.cur, cal, args);
      return;
    }
    pushFrame(st, st.cur, cal, args);
    for (size_t i = 0; i < na; i++)
      if (in.byval[i] >= 0) {
        uint64_t src = args[in.argOff[i] - in.argOff[0]].c;
        Obj* o = newObj(st, arStack(st.cur), in.byval[i], 16, K_STACK, false);
        uint64_t dst = o->base;
        copyBytes(st, dst, src, in.byval[i], "argument copy");
        top(st)->r[in.argOff[i] - in.argOff[0]] = V(dst);
      }
  }
