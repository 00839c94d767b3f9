// vseng: symbolic execution of LLVM IR with symbolic data and symbolic thread schedules.
#include "engine.h"
#include <llvm/Demangle/Demangle.h>
#include <llvm/IR/IRBuilder.h>
#include <fstream>
#include <sstream>

static const std::map<std::string, std::string>& renames() {
  static const std::map<std::string, std::string> r = {
      {"pthread_mutex_lock", "vsrt_mutex_lock"}, {"pthread_mutex_unlock", "vsrt_mutex_unlock"}, {"pthread_mutex_trylock", "vsrt_mutex_trylock"},
      {"_ZNSt18condition_variableC1Ev", "vsrt_cv_ctor"}, {"_ZNSt18condition_variableC2Ev", "vsrt_cv_ctor"},
      {"_ZNSt18condition_variableD1Ev", "vsrt_cv_dtor"}, {"_ZNSt18condition_variableD2Ev", "vsrt_cv_dtor"},
      {"_ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE", "vsrt_cv_wait"},
      {"_ZNSt18condition_variable10notify_oneEv", "vsrt_cv_notify_one"}, {"_ZNSt18condition_variable10notify_allEv", "vsrt_cv_notify_all"},
      {"_ZNSt6thread15_M_start_threadESt10unique_ptrINS_6_StateESt14default_deleteIS1_EEPFvvE", "vsrt_thread_start"},
      {"_ZNSt6thread4joinEv", "vsrt_thread_join"}, {"_ZNSt6thread6detachEv", "vsrt_thread_detach"},
      {"_ZNSt6thread20hardware_concurrencyEv", "vsrt_hardware_concurrency"}, {"pthread_self", "vsrt_pthread_self"},
      {"sched_yield", "vsrt_sched_yield"}, {"__cxa_guard_acquire", "vsrt_guard_acquire"},
      {"__cxa_guard_release", "vsrt_guard_release"}, {"__cxa_guard_abort", "vsrt_guard_abort"},
      {"pthread_mutex_timedlock", "vsrt_mutex_timedlock"}, {"pthread_mutex_clocklock", "vsrt_mutex_timedlock"},
      {"pthread_mutex_init", "vsrt_mutex_init"}, {"pthread_mutex_destroy", "vsrt_mutex_destroy"},
      {"pthread_mutexattr_init", "vsrt_attr_init"}, {"pthread_mutexattr_settype", "vsrt_attr_type"}, {"pthread_mutexattr_destroy", "vsrt_attr_destroy"},
      {"pthread_rwlock_rdlock", "vsrt_rw_rdlock"}, {"pthread_rwlock_wrlock", "vsrt_rw_wrlock"}, {"pthread_rwlock_unlock", "vsrt_rw_unlock"},
      {"pthread_rwlock_tryrdlock", "vsrt_rw_tryrdlock"}, {"pthread_rwlock_trywrlock", "vsrt_rw_trywrlock"},
      {"pthread_rwlock_timedrdlock", "vsrt_rw_timedrdlock"}, {"pthread_rwlock_clockrdlock", "vsrt_rw_timedrdlock"},
      {"pthread_rwlock_timedwrlock", "vsrt_rw_timedwrlock"}, {"pthread_rwlock_clockwrlock", "vsrt_rw_timedwrlock"},
      {"pthread_rwlock_init", "vsrt_rw_init"}, {"pthread_rwlock_destroy", "vsrt_attr_destroy"}, {"pthread_once", "vsrt_once"},
      {"pthread_cond_clockwait", "vsrt_cv_timedwait"}, {"pthread_cond_timedwait", "vsrt_cv_timedwait"}, {"pthread_cond_wait", "vsrt_cv_pwait"},
      {"pthread_cond_signal", "vsrt_cv_pone"}, {"pthread_cond_broadcast", "vsrt_cv_pall"}, {"pthread_cond_init", "vsrt_cv_pinit"},
      {"pthread_cond_destroy", "vsrt_cv_pdestroy"}, {"nanosleep", "vsrt_sleep"}, {"clock_nanosleep", "vsrt_sleep"}, {"usleep", "vsrt_sleep"},
      {"_ZNSt28__atomic_futex_unsigned_base19_M_futex_wait_untilEPjjbNSt6chrono8durationIlSt5ratioILl1ELl1EEEENS2_IlS3_ILl1ELl1000000000EEEE", "vsrt_future_wait"},
      {"_ZNSt28__atomic_futex_unsigned_base26_M_futex_wait_until_steadyEPjjbNSt6chrono8durationIlSt5ratioILl1ELl1EEEENS2_IlS3_ILl1ELl1000000000EEEE", "vsrt_future_wait"},
      {"_ZNSt28__atomic_futex_unsigned_base19_M_futex_notify_allEPj", "vsrt_future_wake"},
      {"_ZNSt6chrono3_V212steady_clock3nowEv", "vsrt_now"}, {"_ZNSt6chrono3_V212system_clock3nowEv", "vsrt_now"}};
  return r;
}
static const std::map<std::string, std::string>& engineRenames() {
  static const std::map<std::string, std::string> r = {{"malloc", "vsrt_malloc"}, {"free", "vsrt_free"}};
  return r;
}
static int builtinByName(const std::string& n) {
  static const std::map<std::string, int> b = {
      {"vs_point", B_POINT}, {"vs_touch", B_TOUCH}, {"vs_await", B_AWAIT}, {"vs_spawn", B_SPAWN}, {"vs_self", B_SELF},
      {"vs_acquire", B_ACQ}, {"vs_release", B_REL}, {"vs_malloc", B_MALLOC}, {"vs_free", B_FREE}, {"vs_sym", B_SYM},
      {"vs_range", B_RANGE}, {"vs_choice", B_CHOICE}, {"vs_concrete", B_CONCRETE}, {"vs_assume", B_ASSUME},
      {"vs_assert", B_ASSERT}, {"vs_reach", B_REACH}, {"vs_log", B_LOG}, {"vs_expect_terminate", B_EXPTERM},
      {"vs_end", B_END}, {"vs_allow_blocked", B_ALLOWBLK}, {"vs_allow_leaks", B_ALLOWLEAK}, {"vs_heap_live", B_HEAPLIVE},
      {"vs_yield", B_YIELD}, {"vs_raise", B_RAISE}, {"_ZSt9terminatev", B_TERMINATE}, {"vs_valid_range", B_VRANGE},
      {"vs_block_id", B_BLOCKID}, {"memcpy", B_MEMCPY}, {"memmove", B_MEMMOVE}, {"memset", B_MEMSET}, {"memcmp", B_MEMCMP},
      {"bcmp", B_MEMCMP}, {"strlen", B_STRLEN}, {"strcmp", B_STRCMP}, {"abort", B_ABORT}, {"__assert_fail", B_ASSERTFAIL},
      {"__cxa_pure_virtual", B_PUREVIRT},
      {"vsrt_weak_cas_failures", B_WCAS}, {"exit", B_DIE}, {"_exit", B_DIE}, {"_Exit", B_DIE}, {"quick_exit", B_DIE},
      {"_ZSt21__glibcxx_assert_failPKciS0_S0_", B_ABORT}};
  auto it = b.find(n);
  if (it == b.end())
    for (const char* p : {"_ZStls", "_ZNSo", "_ZNSt13basic_ostream", "_ZSt4endlI", "_ZSt5flushI"}) if (n.compare(0, strlen(p), p) == 0) return B_ARG0;
  return it == b.end() ? -1 : it->second;
}
static std::string jesc(const std::string& s) {
  std::string o = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else if (c < 32) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
    else o += c;
  }
  return o + "\"";
}
static void doRenames(llvm::Module& M, const std::map<std::string, std::string>& r) {
  for (auto& p : r) {
    auto* F = M.getFunction(p.first);
    if (!F || !F->isDeclaration()) continue;
    if (auto* G = M.getFunction(p.second)) { F->replaceAllUsesWith(G); F->eraseFromParent(); }
    else F->setName(p.second);
  }
}
struct Replay {
  std::string entry, kind, msg;
  std::map<std::string, uint64_t> vars;
  int preempt = -1;
  std::vector<uint64_t> shAddr, shObj;
};
static Replay readReplay(const std::string& p) {
  Replay r;
  std::ifstream f(p);
  std::string line;
  while (std::getline(f, line)) {
    std::istringstream is(line);
    std::string k;
    is >> k;
    if (k == "entry") is >> r.entry;
    else if (k == "kind") is >> r.kind;
    else if (k == "msg") { std::getline(is, r.msg); if (!r.msg.empty()) r.msg.erase(0, 1); }
    else if (k == "preempt") is >> r.preempt;
    else if (k == "var") { std::string n; uint64_t v; is >> n >> v; r.vars[n] = v; }
    else if (k == "shared") { uint64_t v; is >> v; r.shAddr.push_back(v); }
    else if (k == "sharedobj") { uint64_t v; is >> v; r.shObj.push_back(v); }
  }
  return r;
}
static void writeReplay(const std::string& path, const std::string& entry, Engine& e, const std::string& kind, const std::string& msg,
                        const std::map<std::string, uint64_t>& model, State& st, const std::string& bt) {
  std::ofstream f(path);
  f << "entry " << entry << "\nkind " << kind << "\nmsg " << msg << "\n";
  if (!bt.empty()) f << "at " << bt << "\n";
  f << "preempt " << e.opt.preempt << "\n";
  for (auto& p : model) if (p.first.compare(0, 6, "undef@") != 0) f << "var " << p.first << " " << p.second << "\n";
  for (auto& p : st.symLog) f << "sym " << p.first << " " << p.second << "\n";
  for (auto& s : st.switches) f << "sw " << s.t << " " << s.k << " " << s.u << "\n";
  for (auto v : st.log) f << "log " << v << "\n";
  std::vector<uint64_t> a(e.sharedAddr.begin(), e.sharedAddr.end()), o(e.sharedObj.begin(), e.sharedObj.end());
  std::sort(a.begin(), a.end());
  std::sort(o.begin(), o.end());
  for (auto v : a) f << "shared " << v << "\n";
  for (auto v : o) f << "sharedobj " << v << "\n";
}

int main(int argc, char** argv) {
  std::vector<std::string> lls, rts, libs;
  std::string entry, outJson, prefix, replay, instrument;
  Options opt;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto nx = [&]() { return std::string(argv[++i]); };
    if (a == "--rt") rts.push_back(nx());
    else if (a == "--lib") libs.push_back(nx());
    else if (a == "--entry") entry = nx();
    else if (a == "--json") outJson = nx();
    else if (a == "--prefix") prefix = nx();
    else if (a == "--replay") replay = nx();
    else if (a == "--instrument") instrument = nx();
    else if (a == "--time") opt.timeLimit = atof(nx().c_str());
    else if (a == "--preempt") opt.preempt = atoi(nx().c_str());
    else if (a == "--traces") opt.traces = atoi(nx().c_str());
    else if (a == "--discovery") opt.discovery = atoi(nx().c_str());
    else if (a == "--max-vio") opt.maxVio = atoi(nx().c_str());
    else if (a == "--seed") opt.seed = strtoull(nx().c_str(), nullptr, 10);
    else if (a == "--max-states") opt.maxStates = strtoull(nx().c_str(), nullptr, 10);
    else if (a == "--max-steps") opt.maxSteps = strtoull(nx().c_str(), nullptr, 10);
    else if (a == "-v") opt.verbose = true;
    else lls.push_back(a);
  }
  Replay rp;
  if (!replay.empty()) { rp = readReplay(replay); entry = rp.entry; opt.preempt = rp.preempt; }
  Mod m;
  m.builtinOf = builtinByName;
  try {
    for (auto& f : lls) m.loadFile(f);
    for (auto& f : rts) {
      llvm::SMDiagnostic err;
      auto r = llvm::parseIRFile(f, err, m.ctx);
      if (!r) { err.print("vseng", llvm::errs()); return 3; }
      for (auto& F : *r) if (!F.isDeclaration()) F.addFnAttr("vs-rt");
      if (llvm::Linker::linkModules(*m.M, std::move(r))) { fprintf(stderr, "link error %s\n", f.c_str()); return 3; }
    }
    for (auto& f : libs) {   // on demand; treated like the code under test
      llvm::SMDiagnostic err;
      auto r = llvm::parseIRFile(f, err, m.ctx);
      if (!r) { err.print("vseng", llvm::errs()); return 3; }
      if (llvm::Linker::linkModules(*m.M, std::move(r), llvm::Linker::Flags::LinkOnlyNeeded)) { fprintf(stderr, "link error %s\n", f.c_str()); return 3; }
    }
    doRenames(*m.M, renames());
    // shared_ptr counts: always the multi-threaded path, in the engine and natively
    if (auto* G = m.M->getGlobalVariable("__libc_single_threaded"); G && G->isDeclaration()) {
      G->setInitializer(llvm::Constant::getNullValue(G->getValueType()));
      G->setConstant(true);
      G->setLinkage(llvm::GlobalValue::InternalLinkage);
    }
    if (!instrument.empty()) {
      // native replay build: scheduling points become calls, same positions as in the engine
      auto& C = m.ctx;
      auto* FT = llvm::FunctionType::get(llvm::Type::getVoidTy(C), {llvm::PointerType::get(C, 0)}, false);
      auto P = m.M->getOrInsertFunction("vs_point", FT);
      for (auto& F : *m.M) {
        if (F.isDeclaration()) continue;
        bool rt = Mod::isRtName(F.getName()) || F.hasFnAttribute("vs-rt");
        F.removeFnAttr("vs-rt");
        F.addFnAttr(llvm::Attribute::SanitizeAddress);
        if (F.getName().starts_with("vs_main_")) rt = false;
        if (rt) continue;
        std::vector<llvm::Instruction*> v;
        for (auto& I : llvm::instructions(F))
          if (I.isAtomic() && !llvm::isa<llvm::FenceInst>(I)) v.push_back(&I);
        for (auto* I : v) {
          llvm::Value* p = llvm::isa<llvm::LoadInst>(I) ? llvm::cast<llvm::LoadInst>(I)->getPointerOperand()
                           : llvm::isa<llvm::StoreInst>(I) ? llvm::cast<llvm::StoreInst>(I)->getPointerOperand()
                           : llvm::isa<llvm::AtomicRMWInst>(I) ? llvm::cast<llvm::AtomicRMWInst>(I)->getPointerOperand()
                                                               : llvm::cast<llvm::AtomicCmpXchgInst>(I)->getPointerOperand();
          llvm::IRBuilder<> B(I);
          B.CreateCall(P, {p});
        }
      }
      // table of entries
      auto* PT = llvm::PointerType::get(C, 0);
      auto* ST = llvm::StructType::get(C, {PT, PT});
      std::vector<llvm::Constant*> es;
      for (auto& F : *m.M)
        if (F.getName().starts_with("vs_main_") && !F.isDeclaration()) {
          auto* S = llvm::ConstantDataArray::getString(C, F.getName().substr(8));
          auto* G = new llvm::GlobalVariable(*m.M, S->getType(), true, llvm::GlobalValue::PrivateLinkage, S);
          es.push_back(llvm::ConstantStruct::get(ST, {G, &F}));
        }
      es.push_back(llvm::ConstantStruct::get(ST, {llvm::ConstantPointerNull::get(PT), llvm::ConstantPointerNull::get(PT)}));
      auto* AT = llvm::ArrayType::get(ST, es.size());
      new llvm::GlobalVariable(*m.M, AT, true, llvm::GlobalValue::ExternalLinkage, llvm::ConstantArray::get(AT, es), "vs_native_entries");
      std::error_code ec;
      llvm::raw_fd_ostream os(instrument, ec);
      m.M->print(os, nullptr);
      return 0;
    }
    doRenames(*m.M, engineRenames());
    m.mem2reg();
    m.layout();
  } catch (Unsupported& u) {
    fprintf(stderr, "unsupported: %s\n", u.what.c_str());
    return 3;
  }
  auto it = m.funcByName.find("vs_main_" + entry);
  if (it == m.funcByName.end()) { fprintf(stderr, "no entry %s\n", entry.c_str()); return 3; }
  Func* ent = it->second;
  // the entry itself is user code although its name starts with vs_
  for (auto& f : m.funcs) if (f->name.compare(0, 8, "vs_main_") == 0) f->rt = false;
  Z z;
  Engine e(m, z);
  e.opt = opt;
  e.rng.seed(opt.seed);

  if (!replay.empty()) {
    for (auto a : rp.shAddr) e.sharedAddr.insert(a);
    for (auto a : rp.shObj) e.sharedObj.insert(a);
    e.fairTail = rp.kind == "livelock";
    auto r = e.concreteRun(ent, rp.vars);
    if (r.violated) {
      printf("REPLAY-VIOLATION kind=%s %s\n  at %s\n", r.vio.kind.c_str(), r.vio.msg.c_str(), r.vio.bt.c_str());
      if (opt.verbose && e.lastBase) { e.watch = e.lastBase; e.concreteRun(ent, rp.vars); }
      return 1;
    }
    printf("REPLAY-OK how=%d\n", r.how);
    for (auto v : r.st->log) printf("log %lu\n", v);
    return 0;
  }

  // learn which locations are shared, then explore
  std::vector<std::map<std::string, uint64_t>> models;
  for (int i = 0; i < opt.discovery; i++) {
    size_t before = e.sharedAddr.size() + e.sharedObj.size();
    std::map<std::string, uint64_t> md;
    bool ok = e.randomRun(ent, md);
    if (ok && e.sharedAddr.size() + e.sharedObj.size() == before) models.push_back(md);
    e.unsupported.size();
    if (i >= 4 && e.sharedAddr.empty()) break;
    if (e.elapsed() > opt.timeLimit / 4) break;
  }
  // violations met by discovery are kept only if exploration confirms them: forget them here
  e.vios.clear();
  e.vioSigs.clear();
  e.incomplete = false;
  e.reach.clear();
  e.explore(ent);
  std::string coverage = "skipped";
  if (!e.incomplete && e.vios.empty() && e.keepPcs && !e.terminalPcs.empty()) {
    Z3_ast o = z.fls;
    if (e.terminalPcs.size() == 1) o = e.terminalPcs[0];
    else o = Z3_mk_or(z.c, e.terminalPcs.size(), e.terminalPcs.data());
    z.setTimeout(15000);
    int r = z.check(e.domain, z.mkNot(o), false);
    coverage = r == 0 ? "unsat" : r == 1 ? "sat" : "unknown";
    if (r == 1) { e.incomplete = true; e.incompleteWhy = "explored paths do not cover all inputs and schedules"; }
  }
  // statistics of the exploration proper (concrete runs below must not change them)
  auto reach = e.reach;
  struct { uint64_t st, tr, pa, as, me, re, fo, ass, asy, de, wi, rs, ins; } K{e.nStates, e.nTrans, e.nPaths, e.nAssumed, e.nMerged, e.nRevisit, e.nForks, e.nAsserts, e.nAssertSym, e.maxDepth, e.maxLayer, e.nRestarts, e.nInstr};
  // fresh random runs for samples
  for (int i = 0; i < opt.traces * 4 && (int)models.size() < opt.traces * 3; i++) {
    std::map<std::string, uint64_t> md;
    auto sv = e.vios; auto ss = e.vioSigs; bool inc = e.incomplete; auto why = e.incompleteWhy; auto un = e.unsupported;
    if (e.randomRun(ent, md)) models.push_back(md);
    e.vios = sv; e.vioSigs = ss; e.incomplete = inc; e.incompleteWhy = why; e.unsupported = un;
  }
  std::vector<std::string> samples;
  std::set<std::string> seen;
  for (size_t i = models.size(); i-- > 0 && (int)samples.size() < opt.traces;) {
    bool inc = e.incomplete; auto why = e.incompleteWhy; auto un = e.unsupported;
    auto r = e.concreteRun(ent, models[i]);
    e.incomplete = inc; e.incompleteWhy = why; e.unsupported = un;
    if (r.violated || r.how != 0) continue;
    std::ostringstream key;
    for (auto& p : r.st->symLog) key << p.first << "=" << p.second << ";";
    for (auto& s : r.st->switches) key << s.t << ":" << s.k << ">" << s.u << ";";
    if (!seen.insert(key.str()).second) continue;
    std::string fn = prefix + "sample" + std::to_string(samples.size()) + ".replay";
    if (!prefix.empty()) writeReplay(fn, entry, e, "none", "", models[i], *r.st, "");
    samples.push_back(fn);
  }
  std::ostringstream js;
  js << "{\n\"entry\":" << jesc(entry) << ",\n\"complete\":" << (e.incomplete ? "false" : "true") << ",\n\"why\":" << jesc(e.incompleteWhy);
  js << ",\n\"violations\":[";
  int vi = 0;
  for (auto& v : e.vios) {
    std::string fn = prefix + "vio" + std::to_string(vi) + ".replay";
    bool confirmed = false;
    std::string ck;
    if (v.haveModel) {
      e.fairTail = v.kind == "livelock";
      auto r = e.concreteRun(ent, v.model);
      e.fairTail = false;
      confirmed = r.violated;
      if (r.violated) ck = r.vio.kind;
      if (!prefix.empty()) writeReplay(fn, entry, e, v.kind, v.msg, v.model, *r.st, v.bt);
    }
    bool weak = false;
    for (auto& p : v.model) if (p.first.compare(0, 5, "wcas_") == 0 && p.second) weak = true;
    js << (vi ? ",\n" : "\n") << "{\"kind\":" << jesc(v.kind) << ",\"msg\":" << jesc(v.msg) << ",\"where\":" << jesc(llvm::demangle(v.where)) << ",\"bt\":" << jesc(v.bt)
       << ",\"model\":" << (v.haveModel ? "true" : "false") << ",\"confirmed\":" << (confirmed ? "true" : "false") << ",\"confirmed_kind\":" << jesc(ck)
       << ",\"weakcas\":" << (weak ? "true" : "false") << ",\"replay\":" << jesc(fn) << "}";
    vi++;
  }
  js << "],\n\"samples\":[";
  for (size_t i = 0; i < samples.size(); i++) js << (i ? "," : "") << jesc(samples[i]);
  js << "],\n\"functions\":[";
  bool first = true;
  for (auto& f : m.funcs)
    if (f->executed && f->repo) { js << (first ? "" : ",") << "\n" << jesc(llvm::demangle(f->name)); first = false; }
  // executed source lines and branch directions of the library: file:line -> 1 executed, 2/4 branch directions
  std::map<std::pair<std::string, unsigned>, unsigned> lines;
  for (auto& f : m.funcs)
    for (auto& in : f->code)
      if (in.I)
        if (auto& dl = in.I->getDebugLoc()) {
          std::string fn = dl->getFilename().str();
          size_t p = fn.find("include/kelcoro/");
          if (p == std::string::npos) continue;
          unsigned& v = lines[{fn.substr(p + 16), dl.getLine()}];
          v |= in.seen;
          if (in.op == O_CBR) v |= 8;
        }
  js << "],\n\"lines\":[";
  first = true;
  for (auto& p : lines) { js << (first ? "" : ",") << "[" << jesc(p.first.first) << "," << p.first.second << "," << p.second << "]"; first = false; }
  js << "],\n\"unsupported\":[";
  first = true;
  for (auto& u : e.unsupported) { js << (first ? "" : ",") << jesc(u); first = false; }
  js << "],\n\"reach\":{";
  first = true;
  for (auto& p : reach) { js << (first ? "" : ",") << jesc(p.first) << ":" << p.second; first = false; }
  js << "},\n\"symbols\":[";
  first = true;
  for (auto& s : e.symNames) { js << (first ? "" : ",") << jesc(s); first = false; }
  js << "],\n";
  js << "\"states\":" << K.st << ",\"transitions\":" << K.tr << ",\"paths\":" << K.pa << ",\"assumed\":" << K.as
     << ",\"merged\":" << K.me << ",\"revisits\":" << K.re << ",\"forks\":" << K.fo << ",\"asserts\":" << K.ass
     << ",\"assert_sym\":" << K.asy << ",\"depth\":" << K.de << ",\"width\":" << K.wi << ",\"restarts\":" << K.rs
     << ",\"instructions\":" << K.ins << ",\"queries\":" << z.queries << ",\"query_cache_hits\":" << z.cacheHits << ",\"sat\":" << z.satN
     << ",\"unsat\":" << z.unsatN << ",\"unknown\":" << z.unknowns << ",\"solver_s\":" << z.solverTime << ",\"preempt\":" << opt.preempt
     << ",\"coverage_query\":" << jesc(coverage) << ",\"pcs\":" << e.terminalPcs.size() << ",\"wall_s\":" << e.elapsed() << "}\n";
  if (outJson.empty()) fputs(js.str().c_str(), stdout);
  else { std::ofstream f(outJson); f << js.str(); }
  return 0;
}
