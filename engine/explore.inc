  // explore.inc: initial state, scheduling, merging, exploration (part of struct Engine)
  Func* entryFunc = nullptr;
  State* initial(Func* entry) {
    entryFunc = entry;
    State* st = new State();
    funcByAddr.clear();
    for (auto& f : m.funcs) funcByAddr[f->addr] = f.get();
    if (constObj.empty()) {
      constObj.resize(m.globals.size() + 1);
      tlsGlobals.clear();
      for (size_t i = 0; i < m.globals.size(); i++) {
        Global& g = m.globals[i];
        if (g.tls) { tlsGlobals.push_back(i); continue; }
        if (!g.constant) continue;
        Obj* o = new Obj();
        o->base = g.addr; o->size = g.size; o->align = g.align; o->ro = true;
        o->d.assign(g.size, 0);
        if (g.external && g.name.compare(0, 4, "_ZTI") == 0) {   // a type info of the library: a name of its own
          snprintf((char*)o->d.data(), 8, "#%zu", i);
          memcpy(o->d.data() + 8, &g.addr, 8);
        }
        if (g.G->hasInitializer()) { try { m.initBytes(g.G->getInitializer(), o->d.data()); } catch (Unsupported& u) { unsupported.insert("initializer of " + g.name + ": " + u.what); } }
        constObj[i + 1].o = Ref<Obj>(o);
      }
    }
    st->ar.resize(16);
    st->ar[AR_GLOB] = Ref<Arena>(new Arena());
    Arena* A = st->ar[AR_GLOB].p;
    A->s.resize(m.globals.size() + 1);
    for (size_t i = 0; i < m.globals.size(); i++) {
      Global& g = m.globals[i];
      if (g.tls || g.constant) continue;
      Obj* o = new Obj();
      o->base = g.addr; o->size = g.size; o->align = g.align;
      o->d.assign(g.size, 0);
      if (g.G->hasInitializer()) { try { m.initBytes(g.G->getInitializer(), o->d.data()); } catch (Unsupported& u) { unsupported.insert("initializer of " + g.name + ": " + u.what); } }
      A->s[i + 1].o = Ref<Obj>(o);
    }
    spawn(*st, nullptr, V(0));
    // constructors
    if (auto* G = m.M->getGlobalVariable("llvm.global_ctors"))
      if (auto* CA = llvm::dyn_cast<llvm::ConstantArray>(G->getInitializer())) {
        std::vector<std::pair<uint64_t, Func*>> cs;
        for (auto& e : CA->operands()) {
          auto* S = llvm::cast<llvm::ConstantStruct>(e);
          auto* F = llvm::dyn_cast<llvm::Function>(S->getOperand(1));
          if (F) cs.push_back({m.constScalar(llvm::cast<llvm::Constant>(S->getOperand(0))), m.funcOf[F]});
        }
        std::stable_sort(cs.begin(), cs.end(), [](auto& a, auto& b) { return a.first < b.first; });
        for (auto& c : cs) st->th[0].queue.push_back(c.second);
      }
    st->th[0].queue.push_back(entry);
    if (m.funcByName.count("vsrt_run_exit")) st->th[0].queue.push_back(m.funcByName["vsrt_run_exit"]);
    return st;
  }

  void cleanFrames(State& st) {
    for (auto& T : st.th)
      for (auto& fr : T.fr) {
        if (fr->clean) continue;
        Inst& in = fr->f->code[fr->pc];
        if (!in.hasLive) continue;
        Frame* f = fr.mut();
        f->hashed = false;
        for (uint32_t i = 0; i < f->f->nslots; i++)
          if (!(in.live[i >> 6] >> (i & 63) & 1)) f->r[i] = V();
        f->clean = true;
      }
  }
  H2 stateKey(State& st) {
    H2 h;
    // canonical ranks of vector clocks relative to the live access records
    size_t nt = st.th.size();
    std::vector<std::vector<uint16_t>> clks(nt);
    if (st.mt)
      for (auto& a : st.ar)
        if (a) for (auto& s : a->s) if (s.sh) for (auto& r : s.sh->r) clks[r.t].push_back(r.clk);
    for (auto& c : clks) { std::sort(c.begin(), c.end()); c.erase(std::unique(c.begin(), c.end()), c.end()); }
    auto rank = [&](int t, uint16_t v) -> uint64_t { return std::upper_bound(clks[t].begin(), clks[t].end(), v) - clks[t].begin(); };
    h.add(nt);
    h.add((uint64_t)st.expectTerm | st.allowBlocked << 1 | st.allowLeaks << 2 | st.mt << 3 | st.phase << 4);
    h.add(st.wcas);
    if (opt.preempt >= 0) { h.add(st.cur); h.add(st.preempts); }
    for (auto& p : st.symCount) { h.add(p.first); h.add(p.second); }
    for (size_t t = 0; t < nt; t++) {
      Thread& T = st.th[t];
      h.add((uint64_t)T.st | (uint64_t)T.waiting << 4 | T.queue.size() << 8);
      if (T.st == T_AWAIT) { h.add(T.awAddr); h.add(T.awNe); h.add((uint32_t)T.awVal); }
      h.add(T.fr.size());
      for (auto& f : T.fr) h.add(f->clean ? f.p->hash() : f.p->hash());
      h.add(T.excPtr.c); h.add(T.excSel);
      if (st.wcas) h.add(T.points);
      if (st.mt && T.st != T_DONE) {
        for (size_t u = 0; u < nt; u++) if (u != t) h.add(rank(u, T.vc[u]));
        if (T.hasRelFence) { h.add(77); for (size_t u = 0; u < nt; u++) h.add(rank(u, T.relFence[u])); }
        for (size_t u = 0; u < nt; u++) h.add(rank(u, T.acqPend[u]));
      }
    }
    for (size_t a = 0; a < st.ar.size(); a++) {
      if (!st.ar[a]) continue;
      h.add(0xA000 + a);
      h.add(st.ar[a]->s.size());
      for (size_t i = 1; i < st.ar[a]->s.size(); i++) {
        Slot& s = st.ar[a]->s[i];
        if (s.o) h.add(s.o.p->hash());
        else h.add(s.freed ? 2 : 1);
        if (s.sh && !s.sh->r.empty()) {
          uint64_t acc = 0;
          for (auto& r : s.sh->r) {
            H2 x;
            x.add(r.off); x.add(r.len); x.add(r.t); x.add(r.flags); x.add(rank(r.t, r.clk));
            acc += x.a;
          }
          h.add(acc);
        }
      }
    }
    for (auto& l : st.sync) {
      uint64_t any = 0;
      for (size_t u = 0; u < nt; u++) any |= rank(u, l.vc[u]);
      if (!any) continue;
      h.add(l.addr);
      for (size_t u = 0; u < nt; u++) h.add(rank(u, l.vc[u]));
    }
    return h;
  }
  Z3_ast conj(const std::vector<Z3_ast>& v) { return v.empty() ? z.tru : v.size() == 1 ? v[0] : Z3_mk_and(z.c, v.size(), v.data()); }
  void terminal(State& st) {
    if (mode != EXPLORE || !keepPcs) return;
    if (terminalPcs.size() > 12000) { keepPcs = false; terminalPcs.clear(); return; }
    std::vector<Z3_ast> q = st.D;
    if (st.S) q.push_back(st.S);
    terminalPcs.push_back(conj(q));
  }
  void finalChecks(State& st) {
    if (st.allowLeaks) return;
    uint64_t n = 0;
    std::string which;
    for (size_t a = 9; a < st.ar.size(); a += 4)
      if (st.ar[a])
        for (size_t i = 1; i < st.ar[a]->s.size(); i++) {
          auto& s = st.ar[a]->s[i];
          if (s.o && !s.freed && !s.o->noleak) { n++; if (which.size() < 200) which += " " + descr(s.o->base) + " (" + std::to_string(s.o->size) + " bytes)"; }
        }
    if (n) throw Violation{"leak", std::to_string(n) + " heap block(s) never released:" + which};
  }
  enum Out { Y_SCHED, Y_END };
  std::vector<int> enabledList(State& st) {
    std::vector<int> e;
    for (size_t u = 0; u < st.th.size(); u++) if (enabled(st, u)) e.push_back(u);
    return e;
  }
  int lastHow = 0;  // how the last run() ended: 0 ok, 1 assumed, 2 cut, 3 violation
  void switchTo(State& st, int from, int u) {
    if (mode == CONCRETE && u != from) {
      Thread& F = st.th[from];
      st.switches.push_back({from, F.st == T_DONE ? -1 : (int64_t)F.points, u});
    }
    st.cur = u;
    st.steps = 0;
    if (st.th[u].st == T_AWAIT) { st.th[u].st = T_READY; st.th[u].passed = true; }
    else if (st.th[u].waiting) st.th[u].passed = true;
    st.th[u].waiting = false;
  }
  // a run with one enabled thread that comes back to a state it was in never ends (Brent's cycle search)
  struct CycleWatch {
    H2 key; bool has = false; uint64_t n = 0, lim = 64;
  };
  bool cycles(CycleWatch& w, State& st) {
    if (++w.n < 32) return false;
    cleanFrames(st);
    gcRace(st);
    H2 k = stateKey(st);
    k.add(st.cur);
    k.add(dHash(st.D));
    if (w.has && k == w.key) return true;
    if (!w.has || w.n >= w.lim) { w.has = true; w.key = k; w.lim = w.n * 2; }
    return false;
  }
  std::string whereAll(State& st) {
    std::string s;
    for (size_t t = 0; t < st.th.size(); t++)
      if (st.th[t].st != T_DONE) { int c = st.cur; st.cur = t; s += " thread " + std::to_string(t) + " is in " + backtrace(st) + ";"; st.cur = c; }
    return s;
  }
  Out run(State& st) {
    CycleWatch cw;
    for (;;) {
      try {
        exec(st);
        std::vector<int> E = enabledList(st);
        if (E.empty()) {
          bool all = true;
          for (auto& T : st.th) if (T.st != T_DONE) all = false;
          if (!all) {
            if (st.th[0].st == T_DONE ? st.allowBlocked : st.allowBlocked) { reach["blocked-at-end"]++; throw EndPath{0}; }
            std::string s;
            for (size_t t = 0; t < st.th.size(); t++)
              if (st.th[t].st != T_DONE) { int c = st.cur; st.cur = t; s += " thread " + std::to_string(t) + " waits in " + backtrace(st) + ";"; st.cur = c; }
            throw Violation{"deadlock", "no thread can continue:" + s};
          }
          finalChecks(st);
          throw EndPath{0};
        }
        if (E.size() == 1) {
          if (cycles(cw, st)) throw Violation{"livelock", "the program never ends:" + whereAll(st)};
          switchTo(st, st.cur, E[0]);
          continue;
        }
        return Y_SCHED;
      } catch (Violation& v) {
        if (mode == EXPLORE && v.extra) {
          // the violating part is recorded; the remaining values are not followed further on this path
        }
        record(st, v);
        nPaths++;
        lastHow = 3;
        terminal(st);
        return Y_END;
      } catch (EndPath& e) {
        if (e.how == 1) nAssumed++; else nPaths++;
        lastHow = e.how;
        if (e.how == 0 && mode == EXPLORE && opt.verbose && false) fprintf(stderr, "path\n");
        terminal(st);
        return Y_END;
      } catch (Unsupported& u) {
        if (unsupported.insert(u.what).second && opt.verbose) fprintf(stderr, "unsupported: %s\n   at %s\n", u.what.c_str(), backtrace(st).c_str());
        incomplete = true;
        incompleteWhy = "unsupported: " + u.what;
        lastHow = 2;
        return Y_END;
      }
    }
  }

  Z3_ast schedVar(uint32_t d) { return z.var("sched_" + std::to_string(d), 3, false); }
  Z3_ast schedCond(uint32_t d, size_t i, size_t n) {
    Z3_ast v = schedVar(d);
    if (i + 1 == n) return Z3_mk_bvuge(z.c, v, z.num(i, 3));
    return Z3_mk_eq(z.c, v, z.num(i, 3));
  }
  // the choices at one scheduling decision are checked to cover every value of the scheduler variable
  void checkSplit(size_t n) {
    if (splitOk.count((int)n)) return;
    Z3_ast o = z.fls;
    for (size_t i = 0; i < n; i++) o = z.mkOr(o, schedCond(0, i, n));
    splitOk[(int)n] = z.check({}, z.mkNot(o)) == 0;
    if (!splitOk[(int)n]) { incomplete = true; incompleteWhy = "schedule split not exhaustive"; }
  }

  struct Layer {
    std::vector<std::unique_ptr<State>> v;
    std::unordered_map<H2, std::vector<size_t>, H2Hash> idx;
  };
  std::unordered_set<H2, H2Hash> visited;
  static H2 dHash(const std::vector<Z3_ast>& D) {
    std::vector<Z3_ast> d = D;
    std::sort(d.begin(), d.end());
    H2 h;
    for (auto a : d) h.add((uint64_t)a);
    return h;
  }
  void mergeInto(State& a, State& b) {
    // a.D := common /\ (rest1 \/ rest2) ; schedule formulas guarded likewise
    std::vector<Z3_ast> x = a.D, y = b.D, common, ra, rb;
    std::set<Z3_ast> sy(y.begin(), y.end()), sx(x.begin(), x.end());
    for (auto c : x) (sy.count(c) ? common : ra).push_back(c);
    for (auto c : y) if (!sx.count(c)) rb.push_back(c);
    Z3_ast ca = conj(ra), cb = conj(rb);
    Z3_ast sa = a.S ? a.S : z.tru, sb = b.S ? b.S : z.tru;
    if (ra.empty() && rb.empty()) { a.S = z.mkOr(sa, sb); return; }
    Z3_ast d = z.mkOr(ca, cb);
    // complementary literals disappear
    if (ra.size() == 1 && rb.size() == 1 && z.mkNot(ra[0]) == rb[0]) d = z.tru;
    else d = Z3_simplify(z.c, d);
    a.D = common;
    if (d != z.tru) a.D.push_back(d);
    a.S = z.mkOr(z.mkAnd(ca, sa), z.mkAnd(cb, sb));
  }
  // the graph of explored states, for the question whether every one of them can still end
  std::vector<std::vector<uint32_t>> succ;
  std::vector<bool> ends;
  std::unordered_map<H2, uint32_t, H2Hash> nodeOf;
  int64_t doomed = -1;   // second pass: the state to be reported
  uint32_t newNode() { succ.emplace_back(); ends.push_back(false); return (uint32_t)(succ.size() - 1); }
  int64_t findDoomed() {
    std::vector<std::vector<uint32_t>> pred(succ.size());
    for (size_t i = 0; i < succ.size(); i++) for (uint32_t t : succ[i]) pred[t].push_back(i);
    std::vector<bool> ok = ends;
    std::vector<uint32_t> w;
    for (size_t i = 0; i < ok.size(); i++) if (ok[i]) w.push_back(i);
    while (!w.empty()) {
      uint32_t n = w.back(); w.pop_back();
      for (uint32_t q : pred[n]) if (!ok[q]) { ok[q] = true; w.push_back(q); }
    }
    for (size_t i = 1; i < ok.size(); i++) if (!ok[i]) return (int64_t)i;   // 0 stands for the start
    return -1;
  }
  void addState(Layer& L, std::unique_ptr<State> st, uint32_t from) {
    cleanFrames(*st);
    gcRace(*st);
    H2 k = stateKey(*st);
    H2 vk = k;
    vk.add(dHash(st->D));
    auto& lst = L.idx[k];
    for (size_t i : lst) { mergeInto(*L.v[i], *st); nMerged++; succ[from].push_back(L.v[i]->node); return; }
    if (visited.count(vk)) { nRevisit++; terminal(*st); succ[from].push_back(nodeOf[vk]); return; }
    lst.push_back(L.v.size());
    st->node = newNode();
    succ[from].push_back(st->node);
    L.v.push_back(std::move(st));
  }
  // runs a state and all data forks it produces
  void drain(std::unique_ptr<State> s0, Layer& next, uint32_t from) {
    std::vector<std::unique_ptr<State>> work;
    bool first = true;
    work.push_back(std::move(s0));
    while (!work.empty()) {
      if (elapsed() > opt.timeLimit) { incomplete = true; incompleteWhy = "time limit"; return; }
      std::unique_ptr<State> st = std::move(work.back());
      work.pop_back();
      if (!first) nStates++;
      first = false;
      size_t before = forks.size();
      Out o = run(*st);
      while (forks.size() > before) { work.push_back(std::move(forks.back())); forks.pop_back(); }
      nTrans++;
      if (o == Y_SCHED) addState(next, std::move(st), from);
      else ends[from] = true;
      if ((int)vios.size() >= opt.maxVio) { stopAtLimit(); return; }
    }
  }
  void stopAtLimit() { incomplete = true; incompleteWhy = "stopped at the violation limit"; }
  void explore(Func* entry) {
    mode = EXPLORE;
    for (;;) {
      learned = false;
      visited.clear();
      nStates = nTrans = nPaths = nAssumed = nMerged = nRevisit = nForks = nAsserts = nAssertSym = 0;
      maxDepth = maxLayer = 0;
      reach.clear();
      terminalPcs.clear();
      keepPcs = true;
      bool restart = false;
      Layer cur;
      nStates++;
      succ.clear();
      ends.clear();
      nodeOf.clear();
      drain(std::unique_ptr<State>(initial(entry)), cur, newNode());
      uint32_t depth = 0;
      while (!cur.v.empty()) {
        maxDepth = depth + 1;
        maxLayer = std::max<uint64_t>(maxLayer, cur.v.size());
        Layer next;
        for (auto& sp : cur.v) {
          if ((int)vios.size() >= opt.maxVio) { stopAtLimit(); return; }
          if (elapsed() > opt.timeLimit) { incomplete = true; incompleteWhy = "time limit"; return; }
          if (nStates > opt.maxStates) { incomplete = true; incompleteWhy = "state limit"; return; }
          std::unique_ptr<State> s = std::move(sp);
          nStates++;
          H2 vk = stateKey(*s);
          vk.add(dHash(s->D));
          uint32_t node = s->node;
          if (node == doomed) {
            Violation v{"livelock", "no continuation of the program ends:" + whereAll(*s)};
            record(*s, v);
            return;
          }
          if (!visited.insert(vk).second) { nRevisit++; terminal(*s); succ[node].push_back(nodeOf[vk]); continue; }
          nodeOf[vk] = node;
          std::vector<int> E = enabledList(*s);
          bool curEn = std::find(E.begin(), E.end(), s->cur) != E.end();
          if (opt.preempt >= 0 && curEn && (int)s->preempts >= opt.preempt) E = {s->cur}, ends[node] = true;   // what the bound cuts off is not judged
          if (E.size() > 1) checkSplit(E.size());
          for (size_t i = 0; i < E.size(); i++) {
            auto c = std::make_unique<State>(*s);
            if (E.size() > 1) {
              Z3_ast sc = schedCond(s->depth, i, E.size());
              c->S = s->S ? z.mkAnd(s->S, sc) : sc;
              if (curEn && E[i] != s->cur) c->preempts++;
            }
            c->depth++;
            switchTo(*c, c->cur, E[i]);
            drain(std::move(c), next, node);
            if ((int)vios.size() >= opt.maxVio) { stopAtLimit(); return; }
          }
        }
        depth++;
        if (learned && vios.empty()) { restart = true; break; }
        cur = std::move(next);
        if (opt.verbose) fprintf(stderr, "depth %u: %zu states, merged %lu, D-forks %lu, %.1fs, queries %lu\n", depth, cur.v.size(), nMerged, nForks, elapsed(), z.queries);
      }
      if (!restart && !(learned && vios.empty())) {
        if (incomplete || !vios.empty()) return;
        if (doomed >= 0) { incomplete = true; incompleteWhy = "a state that cannot end was not met again"; return; }
        doomed = findDoomed();
        if (doomed < 0) return;
        continue;   // once more, to the state found
      }
      doomed = -1;
      nRestarts++;
    }
  }
  // one run under a random schedule; fills chosen schedule into 'sched'
  bool randomRun(Func* entry, std::map<std::string, uint64_t>& outModel) {
    mode = RANDOM;
    std::unique_ptr<State> st(initial(entry));
    std::map<std::string, uint64_t> sched;
    uint32_t n = 0;
    for (;;) {
      Out o = run(*st);
      forks.clear();
      if (o == Y_END) break;
      std::vector<int> E = enabledList(*st);
      size_t i;
      if (rng() % 3 == 0) i = rng() % E.size();
      else { i = std::find(E.begin(), E.end(), st->cur) - E.begin(); if (i >= E.size()) i = rng() % E.size(); }
      sched["sched_" + std::to_string(st->depth)] = i;
      st->depth++;
      switchTo(*st, st->cur, E[i]);
      if (++n > 20000) return false;
    }
    if (lastHow == 1 || lastHow == 2) return false;
    std::map<std::string, uint64_t> md;
    if (!z.model(st->D, nullptr, md)) return false;
    for (auto& p : sched) md[p.first] = p.second;
    outModel = md;
    return true;
  }
  struct ConcreteResult { int how = 0; VioRec vio; bool violated = false; std::unique_ptr<State> st; };
  bool fairTail = false;
  ConcreteResult concreteRun(Func* entry, const std::map<std::string, uint64_t>& md) {
    mode = CONCRETE;
    model = md;
    auto savedSigs = vioSigs;
    auto savedVios = vios;
    vioSigs.clear();
    vios.clear();
    ConcreteResult r;
    r.st.reset(initial(entry));
    State& st = *r.st;
    int64_t last = -1;   // beyond the recorded schedule (livelocks only): each enabled thread in turn
    for (auto& p : model) if (p.first.compare(0, 6, "sched_") == 0) last = std::max<int64_t>(last, atoll(p.first.c_str() + 6));
    CycleWatch cw;
    for (uint32_t n = 0; n < 1000000; n++) {
      Out o = run(st);
      forks.clear();
      if (o == Y_END) break;
      std::vector<int> E = enabledList(st);
      bool curEn = std::find(E.begin(), E.end(), st.cur) != E.end();
      if (opt.preempt >= 0 && curEn && (int)st.preempts >= opt.preempt) E = {st.cur};
      auto it = model.find("sched_" + std::to_string(st.depth));
      size_t i = it == model.end() ? 0 : it->second;
      if (i >= E.size()) i = E.size() - 1;
      if (fairTail && (int64_t)st.depth > last) {
        i = 0;
        while (i < E.size() && E[i] <= st.cur) i++;
        if (i == E.size()) i = 0;
        if (cycles(cw, st)) { record(st, Violation{"livelock", "the program never ends:" + whereAll(st)}); break; }
      }
      if (E.size() > 1 && curEn && E[i] != st.cur) st.preempts++;
      st.depth++;
      switchTo(st, st.cur, E[i]);
    }
    r.how = lastHow;
    if (!vios.empty()) { r.violated = true; r.vio = vios[0]; }
    vios = savedVios;
    vioSigs = savedSigs;
    return r;
  }
