// Loading and decoding of LLVM IR into a compact interpreter form.
#pragma once
#include "expr.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/CFG.h>
#include <llvm/IR/InstIterator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Linker/Linker.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Transforms/Utils/PromoteMemToReg.h>
#include <llvm/IR/Dominators.h>
#include <llvm/IR/Verifier.h>
#include <functional>

enum OpC : uint8_t {
  O_RET, O_BR, O_CBR, O_SWITCH, O_CALL, O_INVOKE, O_RESUME, O_UNREACHABLE, O_LANDINGPAD, O_SELECT, O_ALLOCA,
  O_LOAD, O_STORE, O_GEP, O_ICMP, O_BIN, O_ZEXT, O_SEXT, O_TRUNC, O_MOV, O_EXTRACT, O_INSERT, O_CMPXCHG,
  O_RMW, O_FENCE, O_FBIN, O_FCMP, O_FCAST, O_NOP, O_SCOPE, O_UNSUPPORTED
};

struct Opnd {
  int32_t reg = -1;
  V c;
};
struct Func;
struct PhiMove { int32_t dst; Opnd src; };
struct Inst {
  OpC op = O_NOP;
  mutable uint8_t seen = 0;  // 1 executed, 2 branch taken, 4 branch not taken
  uint8_t pred = 0;        // icmp predicate / binop / rmw op / cast op
  uint8_t ord = 0;         // atomic ordering (success), 0 = not atomic
  uint8_t ordFail = 0;
  bool weak = false;
  uint32_t w = 0, w2 = 0;  // width of result, of source operand
  uint32_t align = 1;
  int32_t dst = -1;
  uint16_t nd = 0;
  std::vector<Opnd> o;
  std::vector<uint32_t> ws, offs;            // flattened widths/offsets of aggregates
  uint32_t b0 = 0, b1 = 0;                   // successor block ids
  std::vector<std::pair<uint64_t, uint32_t>> cases;
  std::vector<int64_t> scales;               // GEP
  std::vector<uint32_t> iw;                  // GEP index widths
  int64_t coff = 0;
  uint64_t size = 0;                         // alloca element size
  Func* callee = nullptr;
  bool isIndirect = false, mustTail = false, ptrRes = false;
  std::vector<uint32_t> argOff;              // slot offset of each argument in o (o[0] = callee when indirect)
  std::vector<int64_t> byval;                // per argument byval size or -1
  uint32_t byvalAlign = 16;
  std::vector<std::vector<Opnd>> bundleAlign; // llvm.assume align bundles: {ptr, align[, off]}
  int unwind = -1;                           // block id
  std::vector<std::pair<int, uint64_t>> clauses;  // landing pad: (0 catch / 1 filter, typeinfo addr)
  bool cleanup = false;
  const llvm::Instruction* I = nullptr;
  std::vector<uint64_t> live;                // registers live before (visible ops) resp. across (calls)
  bool hasLive = false;
};
struct Block {
  uint32_t start = 0;
  std::map<uint32_t, std::vector<PhiMove>> phis;  // by predecessor block
};
struct Func {
  std::string name, demangled, file;
  const llvm::Function* F = nullptr;
  uint64_t addr = 0;
  int builtin = -1;
  bool rt = false;      // runtime prelude function: not race checked, no scheduling points of its own
  bool repo = false;    // defined in /repo
  bool decoded = false, executed = false;
  uint32_t nslots = 0;
  std::vector<uint32_t> argSlots;  // first slot of each arg
  std::vector<uint32_t> argW;      // slot widths of all args flattened
  uint32_t nargSlots = 0;
  std::vector<Inst> code;
  std::vector<Block> blocks;
};
struct Global {
  std::string name;
  const llvm::GlobalVariable* G = nullptr;
  uint64_t addr = 0, size = 0;
  uint32_t align = 1;
  bool constant = false, tls = false, external = false;
  uint32_t tlsIdx = 0;
};

constexpr uint64_t AR_GLOB = 1, AR_FUNC = 2;
constexpr int MAXT = 18;
constexpr uint64_t AR_HUGE = 129;  // one arena per heap block too large for a slot; only its first bytes are accessible
constexpr uint64_t HUGE_DATA = 0x10000;
inline uint64_t mkAddr(uint64_t arena, uint64_t slot, uint64_t off) { return (arena << 40) | (slot << 20) | off; }
inline uint64_t adArena(uint64_t a) { return (a >> 40) & 0xff; }
inline uint64_t adSlot(uint64_t a) { return (a >> 20) & 0xfffff; }
inline uint64_t arStack(int t) { return 8 + 4 * t; }
inline uint64_t arHeap(int t) { return 9 + 4 * t; }
inline uint64_t arTls(int t) { return 10 + 4 * t; }
inline uint64_t slotBaseOff(uint64_t align) {  // aligned to 'align' and not more
  if (align < 1) align = 1;
  return 0x1000 | (align >= 0x1000 ? 0 : align);
}

struct Unsupported { std::string what; };

struct Mod {
  llvm::LLVMContext ctx;
  std::unique_ptr<llvm::Module> M;
  const llvm::DataLayout* DL = nullptr;
  std::vector<std::unique_ptr<Func>> funcs;
  std::vector<Global> globals;
  std::unordered_map<const llvm::Value*, uint64_t> addrOf;
  std::unordered_map<const llvm::Function*, Func*> funcOf;
  std::unordered_map<std::string, Func*> funcByName;
  std::unordered_map<uint64_t, int> globalByAddr;
  std::string repoDir = "/repo/";

  void flatten(llvm::Type* T, uint64_t off, std::vector<uint32_t>& ws, std::vector<uint32_t>& offs) {
    if (T->isVoidTy()) return;
    if (auto* S = llvm::dyn_cast<llvm::StructType>(T)) {
      auto* L = DL->getStructLayout(S);
      for (unsigned i = 0; i < S->getNumElements(); i++) flatten(S->getElementType(i), off + L->getElementOffset(i), ws, offs);
      return;
    }
    if (auto* A = llvm::dyn_cast<llvm::ArrayType>(T)) {
      uint64_t es = DL->getTypeAllocSize(A->getElementType());
      for (uint64_t i = 0; i < A->getNumElements(); i++) flatten(A->getElementType(), off + i * es, ws, offs);
      return;
    }
    if (auto* X = llvm::dyn_cast<llvm::FixedVectorType>(T)) {
      uint64_t es = DL->getTypeStoreSize(X->getElementType());
      for (uint64_t i = 0; i < X->getNumElements(); i++) flatten(X->getElementType(), off + i * es, ws, offs);
      return;
    }
    unsigned w;
    if (T->isPointerTy()) w = 64;
    else if (T->isIntegerTy()) w = T->getIntegerBitWidth();
    else if (T->isFloatTy()) w = 32;
    else if (T->isDoubleTy()) w = 64;
    else if (T->isX86_FP80Ty()) w = 64;
    else if (T->isTokenTy() || T->isMetadataTy() || T->isLabelTy()) return;
    else { std::string s; llvm::raw_string_ostream os(s); T->print(os); throw Unsupported{"type " + os.str()}; }
    ws.push_back(w);
    offs.push_back(off);
  }
  unsigned slotsOf(llvm::Type* T) { std::vector<uint32_t> a, b; flatten(T, 0, a, b); return a.size(); }
  unsigned scalarW(llvm::Type* T) {
    std::vector<uint32_t> a, b;
    flatten(T, 0, a, b);
    return a.empty() ? 0 : a[0];
  }
  static uint64_t apv(const llvm::APInt& x) { return x.getActiveBits() > 64 ? x.trunc(64).getZExtValue() : x.getZExtValue(); }

  uint64_t constScalar(const llvm::Constant* C) {
    using namespace llvm;
    if (auto* I = dyn_cast<ConstantInt>(C)) return apv(I->getValue());
    if (isa<ConstantPointerNull>(C) || isa<UndefValue>(C)) return 0;
    if (auto* F = dyn_cast<ConstantFP>(C)) return apv(F->getValueAPF().bitcastToAPInt());
    if (auto* A = dyn_cast<GlobalAlias>(C)) return constScalar(A->getAliasee());
    if (isa<GlobalValue>(C)) {
      auto it = addrOf.find(C);
      if (it == addrOf.end()) throw Unsupported{"global without address " + C->getName().str()};
      return it->second;
    }
    if (auto* E = dyn_cast<ConstantExpr>(C)) {
      switch (E->getOpcode()) {
        case Instruction::GetElementPtr: {
          APInt off(64, 0);
          if (!cast<GEPOperator>(E)->accumulateConstantOffset(*DL, off)) throw Unsupported{"const gep"};
          return constScalar(E->getOperand(0)) + off.getSExtValue();
        }
        case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast:
        case Instruction::AddrSpaceCast: return constScalar(E->getOperand(0)) & maskw(scalarW(E->getType()));
        case Instruction::Trunc: return constScalar(E->getOperand(0)) & maskw(scalarW(E->getType()));
        case Instruction::Add: return (constScalar(E->getOperand(0)) + constScalar(E->getOperand(1))) & maskw(scalarW(E->getType()));
        case Instruction::Sub: return (constScalar(E->getOperand(0)) - constScalar(E->getOperand(1))) & maskw(scalarW(E->getType()));
        case Instruction::ICmp: {
          uint64_t a = constScalar(E->getOperand(0)), b = constScalar(E->getOperand(1));
          auto p = (CmpInst::Predicate)cast<ConstantExpr>(E)->getPredicate();
          if (p == CmpInst::ICMP_EQ) return a == b;
          if (p == CmpInst::ICMP_NE) return a != b;
          throw Unsupported{"const icmp"};
        }
        default: throw Unsupported{std::string("const expr ") + E->getOpcodeName()};
      }
    }
    std::string s; llvm::raw_string_ostream os(s); C->print(os);
    throw Unsupported{"constant " + os.str()};
  }
  void constFlat(const llvm::Constant* C, std::vector<V>& out) {
    using namespace llvm;
    Type* T = C->getType();
    if (T->isStructTy() || T->isArrayTy() || T->isVectorTy()) {
      if (isa<ConstantAggregateZero>(C) || isa<UndefValue>(C)) {
        unsigned n = slotsOf(T);
        for (unsigned i = 0; i < n; i++) out.push_back(V(0));
        return;
      }
      unsigned n = T->isStructTy() ? T->getStructNumElements() : T->isArrayTy() ? T->getArrayNumElements() : cast<FixedVectorType>(T)->getNumElements();
      for (unsigned i = 0; i < n; i++) constFlat(C->getAggregateElement(i), out);
      return;
    }
    out.push_back(V(constScalar(C)));
  }
  // writes initializer bytes
  void initBytes(const llvm::Constant* C, uint8_t* p) {
    using namespace llvm;
    Type* T = C->getType();
    if (isa<ConstantAggregateZero>(C) || isa<UndefValue>(C) || isa<ConstantPointerNull>(C)) return;
    if (auto* S = dyn_cast<StructType>(T)) {
      auto* L = DL->getStructLayout(S);
      for (unsigned i = 0; i < S->getNumElements(); i++) initBytes(C->getAggregateElement(i), p + L->getElementOffset(i));
      return;
    }
    if (T->isArrayTy() || T->isVectorTy()) {
      Type* E = T->isArrayTy() ? T->getArrayElementType() : cast<FixedVectorType>(T)->getElementType();
      uint64_t es = DL->getTypeAllocSize(E);
      unsigned n = T->isArrayTy() ? T->getArrayNumElements() : cast<FixedVectorType>(T)->getNumElements();
      if (auto* D = dyn_cast<ConstantDataSequential>(C)) {
        for (unsigned i = 0; i < n; i++) {
          uint64_t v = E->isIntegerTy() ? D->getElementAsInteger(i) : apv(D->getElementAsAPFloat(i).bitcastToAPInt());
          memcpy(p + i * es, &v, es);
        }
        return;
      }
      for (unsigned i = 0; i < n; i++) initBytes(C->getAggregateElement(i), p + i * es);
      return;
    }
    if (auto* I = dyn_cast<ConstantInt>(C)) {
      uint64_t n = DL->getTypeStoreSize(T);
      for (uint64_t i = 0; i < n; i++) p[i] = I->getValue().extractBitsAsZExtValue(std::min<uint64_t>(8, I->getBitWidth() - i * 8), i * 8);
      return;
    }
    uint64_t v = constScalar(C);
    memcpy(p, &v, std::min<uint64_t>(8, DL->getTypeStoreSize(T)));
  }

  std::vector<std::unique_ptr<llvm::Module>> pending;
  void loadFile(const std::string& path) {
    llvm::SMDiagnostic err;
    auto m = llvm::parseIRFile(path, err, ctx);
    if (!m) { err.print("vseng", llvm::errs()); exit(3); }
    if (!M) M = std::move(m);
    else if (llvm::Linker::linkModules(*M, std::move(m))) { fprintf(stderr, "link error %s\n", path.c_str()); exit(3); }
  }

  void mem2reg() {
    for (auto& F : *M) {
      if (F.isDeclaration()) continue;
      llvm::DominatorTree DT(F);
      for (;;) {
        std::vector<llvm::AllocaInst*> as;
        for (auto& I : F.getEntryBlock())
          if (auto* A = llvm::dyn_cast<llvm::AllocaInst>(&I))
            if (llvm::isAllocaPromotable(A)) as.push_back(A);
        if (as.empty()) break;
        llvm::PromoteMemToReg(as, DT);
      }
    }
  }
  static bool isRtName(llvm::StringRef n) {
    return n.starts_with("vsrt_") || n.starts_with("vsg_") || n.starts_with("vs_");
  }

  std::function<int(const std::string&)> builtinOf;

  void layout() {
    DL = &M->getDataLayout();
    uint64_t fi = 1;
    for (auto& F : *M) {
      auto f = std::make_unique<Func>();
      f->name = F.getName().str();
      f->F = &F;
      f->addr = mkAddr(AR_FUNC, fi++, 0x10);
      f->rt = isRtName(F.getName()) || F.hasFnAttribute("vs-rt");
      if (auto* SP = F.getSubprogram()) {
        std::string d = SP->getDirectory().str(), fn = SP->getFilename().str();
        f->file = (!fn.empty() && fn[0] == '/') ? fn : d + "/" + fn;
        if (f->file.find("/./") != std::string::npos) {}
        f->repo = f->file.compare(0, repoDir.size(), repoDir) == 0;
      }
      addrOf[&F] = f->addr;
      funcOf[&F] = f.get();
      funcByName[f->name] = f.get();
      funcs.push_back(std::move(f));
    }
    uint64_t gi = 1;
    uint32_t tls = 1;
    for (auto& G : M->globals()) {
      Global g;
      g.name = G.getName().str();
      g.G = &G;
      g.size = G.getValueType()->isSized() ? (uint64_t)DL->getTypeAllocSize(G.getValueType()) : 8;
      g.align = G.getAlign() ? G.getAlign()->value() : DL->getPreferredAlign(&G).value();
      g.constant = G.isConstant();
      g.tls = G.isThreadLocal();
      g.external = !G.hasInitializer();
      if (g.external && g.size < 64) g.size = 64;
      g.addr = mkAddr(AR_GLOB, gi++, slotBaseOff(g.align));
      if (g.tls) g.tlsIdx = tls++;
      if (g.size > 0xE0000) throw Unsupported{"huge global " + g.name};
      addrOf[&G] = g.addr;
      globalByAddr[g.addr] = globals.size();
      globals.push_back(g);
    }
    for (auto& A : M->aliases()) {
      if (auto* F = llvm::dyn_cast<llvm::Function>(A.getAliaseeObject())) {
        addrOf[&A] = addrOf[F];
        funcByName[A.getName().str()] = funcOf[F];
      }
    }
    for (auto& f : funcs)
      if (f->F->isDeclaration()) f->builtin = builtinOf(f->name);
  }

  // ---------------------------------------------------------------------------------------------- decode
  struct Dec {
    std::unordered_map<const llvm::Value*, uint32_t> slot;
    std::unordered_map<const llvm::BasicBlock*, uint32_t> bb;
  };
  void opnds(Dec& d, const llvm::Value* v, std::vector<Opnd>& out) {
    using namespace llvm;
    if (isa<MetadataAsValue>(v)) return;
    if (auto* C = dyn_cast<Constant>(v)) {
      std::vector<V> vs;
      constFlat(C, vs);
      for (auto& x : vs) { Opnd o; o.c = x; out.push_back(o); }
      return;
    }
    unsigned n = slotsOf(v->getType());
    auto it = d.slot.find(v);
    if (n && it == d.slot.end()) throw Unsupported{"operand without slot"};
    for (unsigned i = 0; i < n; i++) { Opnd o; o.reg = it->second + i; out.push_back(o); }
  }
  static unsigned slotIndex(Mod& m, llvm::Type* T, llvm::ArrayRef<unsigned> idx, llvm::Type*& sub) {
    unsigned s = 0;
    for (unsigned i : idx) {
      if (auto* S = llvm::dyn_cast<llvm::StructType>(T)) {
        for (unsigned k = 0; k < i; k++) s += m.slotsOf(S->getElementType(k));
        T = S->getElementType(i);
      } else {
        auto* A = llvm::cast<llvm::ArrayType>(T);
        s += i * m.slotsOf(A->getElementType());
        T = A->getElementType();
      }
    }
    sub = T;
    return s;
  }
  static uint8_t ordOf(llvm::AtomicOrdering o) { return (uint8_t)o; }

  void decode(Func* f) {
    using namespace llvm;
    if (f->decoded) return;
    f->decoded = true;
    Dec d;
    uint32_t ns = 0;
    for (auto& A : f->F->args()) {
      f->argSlots.push_back(ns);
      d.slot[&A] = ns;
      std::vector<uint32_t> ws, offs;
      flatten(A.getType(), 0, ws, offs);
      for (auto w : ws) f->argW.push_back(w);
      ns += ws.size();
    }
    f->nargSlots = ns;
    uint32_t bi = 0;
    for (auto& B : *f->F) {
      d.bb[&B] = bi++;
      for (auto& I : B) {
        unsigned n = slotsOf(I.getType());
        if (n) { d.slot[&I] = ns; ns += n; }
      }
    }
    f->nslots = ns;
    f->blocks.resize(bi);
    for (auto& B : *f->F) {
      Block& blk = f->blocks[d.bb[&B]];
      blk.start = f->code.size();
      for (auto& I : B) {
        if (auto* P = dyn_cast<PHINode>(&I)) {
          for (unsigned k = 0; k < P->getNumIncomingValues(); k++) {
            std::vector<Opnd> os;
            opnds(d, P->getIncomingValue(k), os);
            auto& v = blk.phis[d.bb[P->getIncomingBlock(k)]];
            // identical predecessor may be listed several times (switch)
            bool dup = false;
            for (auto& pm : v) if (pm.dst == (int)d.slot[&I]) dup = true;
            if (dup) continue;
            for (unsigned j = 0; j < os.size(); j++) v.push_back({(int)(d.slot[&I] + j), os[j]});
          }
          continue;
        }
        Inst in;
        in.I = &I;
        in.nd = slotsOf(I.getType());
        if (in.nd) in.dst = d.slot[&I];
        in.w = in.nd ? scalarW(I.getType()) : 0;
        in.ptrRes = I.getType()->isPointerTy();
        try { decodeInst(d, I, in); } catch (Unsupported& u) { in.op = O_UNSUPPORTED; in.I = &I; }
        if (in.op == O_NOP) continue;
        f->code.push_back(std::move(in));
      }
    }
    liveness(f);
  }
  void decodeInst(Dec& d, const llvm::Instruction& I, Inst& in) {
    using namespace llvm;
    auto addOps = [&]() { for (auto& u : I.operands()) opnds(d, u.get(), in.o); };
    if (auto* R = dyn_cast<ReturnInst>(&I)) { in.op = O_RET; addOps(); return; (void)R; }
    if (auto* B = dyn_cast<BranchInst>(&I)) {
      if (B->isUnconditional()) { in.op = O_BR; in.b0 = d.bb[B->getSuccessor(0)]; return; }
      in.op = O_CBR;
      opnds(d, B->getCondition(), in.o);
      in.b0 = d.bb[B->getSuccessor(0)];
      in.b1 = d.bb[B->getSuccessor(1)];
      return;
    }
    if (auto* S = dyn_cast<SwitchInst>(&I)) {
      in.op = O_SWITCH;
      opnds(d, S->getCondition(), in.o);
      in.w = scalarW(S->getCondition()->getType());
      in.b0 = d.bb[S->getDefaultDest()];
      for (auto& c : S->cases()) in.cases.push_back({apv(c.getCaseValue()->getValue()), d.bb[c.getCaseSuccessor()]});
      return;
    }
    if (isa<UnreachableInst>(&I)) { in.op = O_UNREACHABLE; return; }
    if (isa<ResumeInst>(&I)) { in.op = O_RESUME; addOps(); return; }
    if (auto* L = dyn_cast<LandingPadInst>(&I)) {
      in.op = O_LANDINGPAD;
      in.cleanup = L->isCleanup();
      for (unsigned i = 0; i < L->getNumClauses(); i++) {
        if (L->isCatch(i)) in.clauses.push_back({0, constScalar(L->getClause(i))});
        else in.clauses.push_back({1, 0});
      }
      return;
    }
    if (auto* S = dyn_cast<SelectInst>(&I)) {
      in.op = O_SELECT; addOps();
      std::vector<uint32_t> offs; flatten(S->getType(), 0, in.ws, offs);
      return;
    }
    if (auto* A = dyn_cast<AllocaInst>(&I)) {
      in.op = O_ALLOCA;
      in.size = DL->getTypeAllocSize(A->getAllocatedType());
      in.align = A->getAlign().value();
      opnds(d, A->getArraySize(), in.o);
      return;
    }
    if (auto* L = dyn_cast<LoadInst>(&I)) {
      in.op = O_LOAD; addOps();
      flatten(L->getType(), 0, in.ws, in.offs);
      in.align = L->getAlign().value();
      if (L->isAtomic()) in.ord = ordOf(L->getOrdering());
      return;
    }
    if (auto* S = dyn_cast<StoreInst>(&I)) {
      in.op = O_STORE;
      opnds(d, S->getPointerOperand(), in.o);
      opnds(d, S->getValueOperand(), in.o);
      flatten(S->getValueOperand()->getType(), 0, in.ws, in.offs);
      in.align = S->getAlign().value();
      if (S->isAtomic()) in.ord = ordOf(S->getOrdering());
      return;
    }
    if (auto* C = dyn_cast<AtomicCmpXchgInst>(&I)) {
      in.op = O_CMPXCHG; addOps();
      in.w = scalarW(C->getCompareOperand()->getType());
      in.ord = ordOf(C->getSuccessOrdering());
      in.ordFail = ordOf(C->getFailureOrdering());
      in.weak = C->isWeak();
      in.align = C->getAlign().value();
      return;
    }
    if (auto* R = dyn_cast<AtomicRMWInst>(&I)) {
      in.op = O_RMW; addOps();
      in.pred = R->getOperation();
      in.ord = ordOf(R->getOrdering());
      in.align = R->getAlign().value();
      return;
    }
    if (auto* F = dyn_cast<FenceInst>(&I)) { in.op = O_FENCE; in.ord = ordOf(F->getOrdering()); return; }
    if (auto* G = dyn_cast<GetElementPtrInst>(&I)) {
      in.op = O_GEP;
      opnds(d, G->getPointerOperand(), in.o);
      MapVector<Value*, APInt> vo;
      APInt co(64, 0);
      if (!G->collectOffset(*DL, 64, vo, co)) throw Unsupported{"gep"};
      in.coff = co.getSExtValue();
      for (auto& p : vo) {
        opnds(d, p.first, in.o);
        in.scales.push_back(p.second.getSExtValue());
        in.iw.push_back(scalarW(p.first->getType()));
      }
      return;
    }
    if (auto* C = dyn_cast<ICmpInst>(&I)) {
      if (C->getType()->isVectorTy()) throw Unsupported{"vector icmp"};
      in.op = O_ICMP; addOps();
      in.pred = C->getPredicate();
      in.w2 = scalarW(C->getOperand(0)->getType());
      if (in.w2 > 64) throw Unsupported{"wide icmp"};
      return;
    }
    if (auto* C = dyn_cast<FCmpInst>(&I)) { in.op = O_FCMP; addOps(); in.pred = C->getPredicate(); in.w2 = scalarW(C->getOperand(0)->getType()); return; }
    if (auto* B = dyn_cast<BinaryOperator>(&I)) {
      if (B->getType()->isVectorTy()) throw Unsupported{"vector op"};
      addOps();
      in.pred = B->getOpcode();
      in.op = B->getType()->isFloatingPointTy() ? O_FBIN : O_BIN;
      if (in.op == O_BIN && in.w > 64) throw Unsupported{"wide int op"};
      return;
    }
    if (isa<UnaryOperator>(&I)) { in.op = O_FBIN; addOps(); in.pred = 255; return; }
    if (auto* C = dyn_cast<CastInst>(&I)) {
      addOps();
      in.w2 = scalarW(C->getOperand(0)->getType());
      if (in.nd != 1) throw Unsupported{"vector cast"};
      switch (C->getOpcode()) {
        case Instruction::ZExt: in.op = O_ZEXT; break;
        case Instruction::SExt: in.op = O_SEXT; break;
        case Instruction::Trunc: in.op = O_TRUNC; break;
        case Instruction::PtrToInt: case Instruction::IntToPtr:
          in.op = in.w == in.w2 ? O_MOV : in.w > in.w2 ? O_ZEXT : O_TRUNC; break;
        case Instruction::BitCast: case Instruction::AddrSpaceCast: in.op = O_MOV; break;
        default: in.op = O_FCAST; in.pred = C->getOpcode();
      }
      if ((in.op == O_ZEXT || in.op == O_SEXT) && in.w > 64) throw Unsupported{"wide ext"};
      return;
    }
    if (isa<FreezeInst>(&I)) { in.op = O_MOV; addOps(); return; }
    if (auto* E = dyn_cast<ExtractValueInst>(&I)) {
      in.op = O_EXTRACT;
      std::vector<Opnd> all;
      opnds(d, E->getAggregateOperand(), all);
      Type* sub;
      unsigned s = slotIndex(*this, E->getAggregateOperand()->getType(), E->getIndices(), sub);
      for (unsigned i = 0; i < in.nd; i++) in.o.push_back(all[s + i]);
      return;
    }
    if (auto* E = dyn_cast<InsertValueInst>(&I)) {
      in.op = O_INSERT;
      opnds(d, E->getAggregateOperand(), in.o);
      std::vector<Opnd> val;
      opnds(d, E->getInsertedValueOperand(), val);
      Type* sub;
      unsigned s = slotIndex(*this, E->getAggregateOperand()->getType(), E->getIndices(), sub);
      for (unsigned i = 0; i < val.size(); i++) in.o[s + i] = val[i];
      return;
    }
    if (auto* C = dyn_cast<CallBase>(&I)) {
      in.op = isa<InvokeInst>(C) ? O_INVOKE : O_CALL;
      const Function* F = C->getCalledFunction();
      if (!F)
        if (auto* A = dyn_cast<GlobalAlias>(C->getCalledOperand())) F = dyn_cast<Function>(A->getAliaseeObject());
      if (F && F->isIntrinsic()) {
        auto id = F->getIntrinsicID();
        if (id == Intrinsic::lifetime_start || id == Intrinsic::lifetime_end) {
          in.op = O_SCOPE;
          in.size = id == Intrinsic::lifetime_end;
          opnds(d, C->getArgOperand(1), in.o);
          return;
        }
        if (isa<DbgInfoIntrinsic>(&I) ||
            id == Intrinsic::experimental_noalias_scope_decl || id == Intrinsic::invariant_start || id == Intrinsic::invariant_end) {
          in.op = O_NOP; return;
        }
      }
      if (isa<InlineAsm>(C->getCalledOperand())) {
        // compiler barriers / pause
        if (in.nd == 0) { in.op = O_NOP; return; }
        throw Unsupported{"inline asm"};
      }
      if (!F) { in.isIndirect = true; opnds(d, C->getCalledOperand(), in.o); }
      else in.callee = funcOf[F];
      for (unsigned i = 0; i < C->arg_size(); i++) {
        in.argOff.push_back(in.o.size());
        opnds(d, C->getArgOperand(i), in.o);
        in.byval.push_back(C->isByValArgument(i) ? (int64_t)DL->getTypeAllocSize(C->getParamByValType(i)) : -1);
      }
      in.argOff.push_back(in.o.size());
      flatten(C->getType(), 0, in.ws, in.offs);
      if (auto* CI = dyn_cast<CallInst>(C)) in.mustTail = CI->isMustTailCall();
      if (auto* IV = dyn_cast<InvokeInst>(C)) { in.b0 = d.bb[IV->getNormalDest()]; in.unwind = d.bb[IV->getUnwindDest()]; }
      if (F && F->getIntrinsicID() == Intrinsic::assume) {
        for (unsigned i = 0; i < C->getNumOperandBundles(); i++) {
          auto b = C->getOperandBundleAt(i);
          if (b.getTagName() == "align") {
            std::vector<Opnd> v;
            for (auto& u : b.Inputs) opnds(d, u.get(), v);
            in.bundleAlign.push_back(v);
          }
        }
      }
      return;
    }
    throw Unsupported{std::string("instruction ") + I.getOpcodeName()};
  }
  // backward liveness over register slots
  void liveness(Func* f) {
    uint32_t W = (f->nslots + 63) / 64;
    size_t nb = f->blocks.size();
    std::vector<std::vector<uint64_t>> in(nb, std::vector<uint64_t>(W, 0));
    auto set = [&](std::vector<uint64_t>& v, int r) { if (r >= 0) v[r >> 6] |= 1ull << (r & 63); };
    auto clr = [&](std::vector<uint64_t>& v, int r) { v[r >> 6] &= ~(1ull << (r & 63)); };
    auto endOf = [&](uint32_t b) { return b + 1 < nb ? f->blocks[b + 1].start : (uint32_t)f->code.size(); };
    auto succs = [&](const Inst& t, std::vector<uint32_t>& s) {
      switch (t.op) {
        case O_BR: s.push_back(t.b0); break;
        case O_CBR: s.push_back(t.b0); s.push_back(t.b1); break;
        case O_SWITCH: s.push_back(t.b0); for (auto& c : t.cases) s.push_back(c.second); break;
        case O_INVOKE: s.push_back(t.b0); s.push_back(t.unwind); break;
        default: break;
      }
    };
    auto liveOut = [&](uint32_t b, std::vector<uint64_t>& v) {
      std::fill(v.begin(), v.end(), 0);
      uint32_t e = endOf(b);
      if (e == f->blocks[b].start) return;
      std::vector<uint32_t> s;
      succs(f->code[e - 1], s);
      for (auto x : s) {
        std::vector<uint64_t> li = in[x];
        auto it = f->blocks[x].phis.find(b);
        for (auto& pp : f->blocks[x].phis) for (auto& pm : pp.second) clr(li, pm.dst);
        if (it != f->blocks[x].phis.end()) for (auto& pm : it->second) set(li, pm.src.reg);
        for (uint32_t i = 0; i < W; i++) v[i] |= li[i];
      }
    };
    bool ch = true;
    std::vector<uint64_t> v(W);
    auto walk = [&](uint32_t b, bool record) {
      liveOut(b, v);
      uint32_t s = f->blocks[b].start, e = endOf(b);
      for (uint32_t i = e; i-- > s;) {
        Inst& x = f->code[i];
        for (int k = 0; k < x.nd; k++) clr(v, x.dst + k);
        bool isCall = x.op == O_CALL || x.op == O_INVOKE;
        if (record && isCall) { x.live = v; x.hasLive = true; }
        for (auto& o : x.o) set(v, o.reg);
        for (auto& bb : x.bundleAlign) for (auto& o : bb) set(v, o.reg);
        // operands of a call stay available while it is pending as a visible operation of a builtin
        if (record && isCall) for (uint32_t q = 0; q < W; q++) x.live[q] |= 0;
        if (record && x.ord) { x.live = v; x.hasLive = true; }
      }
    };
    while (ch) {
      ch = false;
      for (uint32_t b = nb; b-- > 0;) {
        walk(b, false);
        if (v != in[b]) { in[b] = v; ch = true; }
      }
    }
    for (uint32_t b = 0; b < nb; b++) walk(b, true);
    // for direct calls of builtins (possible scheduling points) operands must survive cleaning
    for (auto& x : f->code)
      if ((x.op == O_CALL || x.op == O_INVOKE) && x.hasLive && ((x.callee && x.callee->F->isDeclaration())))
        for (auto& o : x.o) set(x.live, o.reg);
  }
};
