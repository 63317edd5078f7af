// symx: a bounded symbolic executor for LLVM IR (clang 18) deciding path feasibility and
// assertions with z3.  See DESIGN.md.
#include "expr.h"
#include "race.h"
#include <llvm/IR/Module.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/IRBuilder.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Bitcode/BitcodeWriter.h>
#include <llvm/Linker/Linker.h>
#include <llvm/IR/PassManager.h>
#include <llvm/Analysis/LoopAnalysisManager.h>
#include <llvm/Analysis/CGSCCPassManager.h>
#include <llvm/Passes/PassBuilder.h>
#include <llvm/Transforms/IPO/Internalize.h>
#include <llvm/Transforms/IPO/GlobalDCE.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Support/FileSystem.h>
#include <llvm/Support/JSON.h>
#include <llvm/Support/KnownBits.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <unistd.h>
#include <map>
#include <set>
#include <list>
#include <random>
using namespace llvm;
Exprs E;

// ------------------------------------------------------------------ options
static std::string optOut = "out.json", optEntry = "sx_main", optRepo = "/repo";
static u64 optMaxSteps = 3000000, optMaxViol = 8; static double optTime = 600; static int optPreempt = -1, optJobs = 1, optSamples = 12;
static unsigned optTimeout = 20000; static bool optVerbose = false; static std::vector<int> optArgs; static u64 optMaxConc = 4096;
static bool optTrace = false;
static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
static double tStart;
static Solver* SV;
static std::unique_ptr<Module> M; static const DataLayout* DL;

// ------------------------------------------------------------------ instrumentation (shared by symbolic run and native replay)
static std::string locFile(const Instruction& I) { if (const DILocation* l = I.getDebugLoc()) { std::string f = l->getFilename().str(); if (!f.empty() && f[0] != '/') f = l->getDirectory().str() + "/" + f; return f; } return ""; }
static bool schedSite(const Instruction& I) {
  std::string f = locFile(I);
  if (f.find("/boost/") != std::string::npos || f.find("/smart_ptr/") != std::string::npos) {
    // reference counts of smart pointers commute; only instrumented when the unit under test is the smart pointer
    return I.getModule()->getNamedGlobal("sx_cfg_sched_smart_ptr") != nullptr;
  }
  return true;
}

// Translates a small multi-instruction AT&T asm block (labels, conditional jumps, mov/test/inc/dec/add/sub/cmpxchg) into IR.
static bool translateAsm(Module& M, CallInst* CI, FunctionCallee sched, bool ss) {
  LLVMContext& C = M.getContext(); auto* IA = cast<InlineAsm>(CI->getCalledOperand()); Type* T = Type::getInt32Ty(C);
  std::vector<std::vector<std::string>> ins; std::string text = IA->getAsmString(), cur; for (char& c : text) if (c == ';' || c == '\t') c = c == ';' ? '\n' : ' '; text += '\n';
  for (char c : text) { if (c != '\n') { cur += c; continue; } std::vector<std::string> tk; std::string t; for (char d : cur + " ") { if (d == ' ' || d == ',') { if (!t.empty()) tk.push_back(t); t.clear(); } else t += d; } if (!tk.empty()) ins.push_back(tk); cur.clear(); }
  struct Op { Value* mem = nullptr; bool isMem = false; std::string tie; int out = -1; }; std::vector<Op> ops; unsigned arg = 0; int nout = 0; AllocaInst* eax; Function* F = CI->getFunction(); IRBuilder<> E(&F->getEntryBlock(), F->getEntryBlock().getFirstInsertionPt());
  eax = E.CreateAlloca(T); AllocaInst* zf = E.CreateAlloca(Type::getInt1Ty(C));
  for (auto& k : IA->ParseConstraints()) { if (k.Type == InlineAsm::isClobber) continue; Op o; bool ax = false; for (auto& c : k.Codes) if (c == "{ax}" || c == "{eax}" || c == "a") ax = true;
    if (k.isIndirect) { o.mem = CI->getArgOperand(arg++); o.isMem = true; }
    else if (k.Type == InlineAsm::isOutput) { o.mem = ax ? eax : E.CreateAlloca(T); o.out = nout++; }
    else { int m = -1; if (!k.Codes.empty() && isdigit(k.Codes[0][0])) m = atoi(k.Codes[0].c_str()); o.mem = m >= 0 ? ops[m].mem : ax ? eax : E.CreateAlloca(T); IRBuilder<> B(CI); Value* v = CI->getArgOperand(arg++); if (!v->getType()->isIntegerTy()) return false; B.CreateStore(B.CreateZExtOrTrunc(v, T), o.mem); }
    ops.push_back(o); }
  BasicBlock* head = CI->getParent(); BasicBlock* tail = head->splitBasicBlock(CI); std::vector<BasicBlock*> bb; for (auto& i : ins) bb.push_back(BasicBlock::Create(C, "asm", F, tail)); bb.push_back(tail);
  head->getTerminator()->eraseFromParent(); BranchInst::Create(bb[0], head);
  auto label = [&](const std::string& l, size_t at) -> BasicBlock* { std::string n = l.substr(0, l.size() - 1) + ":"; if (l.back() == 'f') { for (size_t j = at + 1; j < ins.size(); j++) if (ins[j][0] == n) return bb[j]; } else for (size_t j = at + 1; j-- > 0;) if (ins[j][0] == n) return bb[j]; return nullptr; };
  bool lock = false, bad = false;
  for (size_t i = 0; i < ins.size(); i++) { IRBuilder<> B(bb[i]); B.SetCurrentDebugLocation(CI->getDebugLoc()); auto& t = ins[i]; const std::string& m = t[0];
    auto opnd = [&](const std::string& x) -> Op { Op o; if (x == "%eax") { o.mem = eax; return o; } if (x[0] == '$' && x.size() > 1 && isdigit(x[1])) { unsigned k = atoi(x.c_str() + 1); if (k < ops.size()) return ops[k]; } bad = true; o.mem = eax; return o; };
    auto ld = [&](const std::string& x) -> Value* { if (x[0] == '$' && x.size() > 1 && x[1] == '$') return ConstantInt::get(T, atoi(x.c_str() + 2)); Op o = opnd(x); if (o.isMem && ss) B.CreateCall(sched); return o.isMem ? B.CreateAlignedLoad(T, o.mem, MaybeAlign(1), true) : B.CreateLoad(T, o.mem); };
    auto stv = [&](const std::string& x, Value* v) { Op o = opnd(x); if (o.isMem) { if (ss) B.CreateCall(sched); B.CreateAlignedStore(v, o.mem, MaybeAlign(1), true); } else B.CreateStore(v, o.mem); };
    auto rmw = [&](const std::string& x, AtomicRMWInst::BinOp op, Value* v) { Op o = opnd(x); Value* old; if (o.isMem && lock) { if (ss) B.CreateCall(sched); old = B.CreateAtomicRMW(op, o.mem, v, MaybeAlign(4), AtomicOrdering::SequentiallyConsistent); } else { old = ld(x); stv(x, op == AtomicRMWInst::Add ? B.CreateAdd(old, v) : B.CreateSub(old, v)); } Value* nv = op == AtomicRMWInst::Add ? B.CreateAdd(old, v) : B.CreateSub(old, v); B.CreateStore(B.CreateICmpEQ(nv, ConstantInt::get(T, 0)), zf); };
    if (m.back() == ':') ; else if (m == "lock") { lock = true; B.CreateBr(bb[i + 1]); continue; }
    else if ((m == "movl" || m == "mov") && t.size() == 3) stv(t[2], ld(t[1]));
    else if ((m == "test" || m == "testl") && t.size() == 3) B.CreateStore(B.CreateICmpEQ(B.CreateAnd(ld(t[1]), ld(t[2])), ConstantInt::get(T, 0)), zf);
    else if ((m == "cmp" || m == "cmpl") && t.size() == 3) B.CreateStore(B.CreateICmpEQ(ld(t[1]), ld(t[2])), zf);
    else if ((m == "incl" || m == "inc") && t.size() == 2) rmw(t[1], AtomicRMWInst::Add, ConstantInt::get(T, 1));
    else if ((m == "decl" || m == "dec") && t.size() == 2) rmw(t[1], AtomicRMWInst::Sub, ConstantInt::get(T, 1));
    else if ((m == "addl" || m == "add") && t.size() == 3) rmw(t[2], AtomicRMWInst::Add, ld(t[1]));
    else if ((m == "subl" || m == "sub") && t.size() == 3) rmw(t[2], AtomicRMWInst::Sub, ld(t[1]));
    else if ((m == "cmpxchgl" || m == "cmpxchg") && t.size() == 3) { Value* n = ld(t[1]); Op o = opnd(t[2]); Value* c = B.CreateLoad(T, eax); Value* old; if (lock) { if (ss) B.CreateCall(sched); old = B.CreateExtractValue(B.CreateAtomicCmpXchg(o.mem, c, n, MaybeAlign(4), AtomicOrdering::SequentiallyConsistent, AtomicOrdering::SequentiallyConsistent), 0); } else { old = ld(t[2]); stv(t[2], B.CreateSelect(B.CreateICmpEQ(old, c), n, old)); } B.CreateStore(old, eax); B.CreateStore(B.CreateICmpEQ(old, c), zf); }
    else if (m == "je" || m == "jz" || m == "jne" || m == "jnz") { BasicBlock* L = label(t[1], i); if (!L) { bad = true; L = tail; } Value* z = B.CreateLoad(Type::getInt1Ty(C), zf); if (m == "je" || m == "jz") B.CreateCondBr(z, L, bb[i + 1]); else B.CreateCondBr(z, bb[i + 1], L); lock = false; continue; }
    else if (m == "jmp") { BasicBlock* L = label(t[1], i); if (!L) { bad = true; L = tail; } B.CreateBr(L); lock = false; continue; }
    else bad = true;
    lock = false; B.CreateBr(bb[i + 1]); }
  if (bad) { errs() << "symx: inline asm not modelled: " << IA->getAsmString() << "\n"; exit(3); }
  IRBuilder<> B(CI); std::vector<Value*> outs; for (auto& o : ops) if (o.out >= 0) outs.push_back(B.CreateLoad(T, o.mem));
  if (CI->getType()->isStructTy()) { Value* a = UndefValue::get(CI->getType()); for (size_t k = 0; k < outs.size(); k++) a = B.CreateInsertValue(a, B.CreateZExtOrTrunc(outs[k], CI->getType()->getStructElementType(k)), k); CI->replaceAllUsesWith(a); }
  else if (outs.size() == 1) CI->replaceAllUsesWith(B.CreateZExtOrTrunc(outs[0], CI->getType()));
  CI->eraseFromParent(); return true;
}
// ---- race instrumentation: which accesses belong to a container (or smart pointer) operation of the code under test
enum { RC_NONE, RC_REPO, RC_DYN, RC_OTHER };
static std::string diFile(const DILocalScope* sc) { const DISubprogram* sp = sc ? sc->getSubprogram() : nullptr; if (!sp || !sp->getFile()) return ""; std::string f = sp->getFile()->getFilename().str(); if (!f.empty() && f[0] != '/') f = sp->getFile()->getDirectory().str() + "/" + f; return f; }
static bool sysFile(const std::string& f) { return f.find("/c++/") != std::string::npos || f.find("/smart_ptr/") != std::string::npos || f.find("/boost/") != std::string::npos && f.find("/asio") == std::string::npos; }
static bool contFn(const DILocalScope* sc) { const DISubprogram* sp = sc ? sc->getSubprogram() : nullptr; if (!sp) return false; std::string n = sp->getLinkageName().str(); for (const char* k : {"_Rb_tree", "St3map", "St3set", "8multimap", "8multiset", "4listI", "_List_", "St5deque", "_Deque_", "St6vector", "_Vector_", "_Hash", "13unordered_map", "13unordered_set", "multi_index", "10shared_ptr", "8weak_ptr", "10scoped_ptr"}) if (n.find(k) != std::string::npos) return true; return false; }
// innermost frames are library code: container code called (inlined) from the code under test, or an out-of-line library function
static int raceScope(const Instruction& I) { const DILocation* l = I.getDebugLoc(); bool cont = false; 
  for (; l; l = l->getInlinedAt()) { std::string f = diFile(l->getScope()); if (sysFile(f)) { if (contFn(l->getScope())) cont = true; continue; } if (f.compare(0, optRepo.size() + 1, optRepo + "/") == 0) return cont ? RC_REPO : RC_NONE; return RC_OTHER; }
  return cont && I.getDebugLoc() ? RC_DYN : RC_NONE; }
// the frame a call is made from: 1 code under test, 0 anything else that is not library code, -1 library code
static int callScope(const Instruction& I) { bool sys = false; for (const DILocation* l = I.getDebugLoc(); l; l = l->getInlinedAt()) { std::string f = diFile(l->getScope()); if (sysFile(f)) { sys = true; continue; } return f.compare(0, optRepo.size() + 1, optRepo + "/") == 0 ? 1 : 0; } return -1; }
static bool outOfLineSys(const Function* F) { if (!F || F->isDeclaration() || F->isIntrinsic()) return false; const DISubprogram* sp = F->getSubprogram(); if (!sp) return false; return sysFile(diFile(sp)); }
static void instrumentRace(Module& M) {
  LLVMContext& C = M.getContext(); Type *V = Type::getVoidTy(C), *P = PointerType::getUnqual(C), *T = Type::getInt32Ty(C);
  FunctionCallee acq = M.getOrInsertFunction("sx_hb_acq", V, P), rel = M.getOrInsertFunction("sx_hb_rel", V, P), race = M.getOrInsertFunction("sx_race", V, P, T), racec = M.getOrInsertFunction("sx_race_c", V, P, T), ctx = M.getOrInsertFunction("sx_race_ctx", T, T);
  for (Function& F : M) { if (F.isDeclaration() || F.getName().starts_with("sx_")) continue; std::vector<Instruction*> work; for (BasicBlock& B : F) for (Instruction& I : B) work.push_back(&I);
    for (Instruction* I : work) {
      Value* ptr = nullptr; bool vis = false, st = false, rmw = false;
      if (auto* L = dyn_cast<LoadInst>(I)) { vis = L->isVolatile() || L->isAtomic(); ptr = L->getPointerOperand(); }
      else if (auto* S = dyn_cast<StoreInst>(I)) { vis = S->isVolatile() || S->isAtomic(); ptr = S->getPointerOperand(); st = true; }
      else if (auto* A = dyn_cast<AtomicRMWInst>(I)) { vis = rmw = true; ptr = A->getPointerOperand(); } else if (auto* A = dyn_cast<AtomicCmpXchgInst>(I)) { vis = rmw = true; ptr = A->getPointerOperand(); }
      if (vis) { IRBuilder<> B(I); B.SetCurrentDebugLocation(I->getDebugLoc()); if (st || rmw) B.CreateCall(rel, {ptr}); if (!st) { IRBuilder<> B2(I->getNextNode()); B2.SetCurrentDebugLocation(I->getDebugLoc()); B2.CreateCall(acq, {ptr}); } continue; }
      if (ptr) { const Value* base = ptr->stripInBoundsOffsets(); if (isa<AllocaInst>(base)) continue; int k = raceScope(*I); if (k != RC_REPO && k != RC_DYN) continue; IRBuilder<> B(I); B.SetCurrentDebugLocation(I->getDebugLoc()); FunctionCallee& r = k == RC_REPO ? race : racec; B.CreateCall(r, {ptr, B.getInt32(st)});
        // the size of a list stands for its header (linked by library functions outside the module)
        if (st) { const DISubprogram* sp = I->getDebugLoc()->getScope()->getSubprogram(); StringRef n = sp ? sp->getName() : ""; if (n == "_M_inc_size" || n == "_M_dec_size") for (int o : {-16, -8}) B.CreateCall(r, {B.CreateGEP(B.getInt8Ty(), ptr, B.getInt64(o)), B.getInt32(1)}); } }
      if (auto* CB = dyn_cast<CallBase>(I)) { Function* G = CB->getCalledFunction(); if (!G || CB->isInlineAsm()) continue; StringRef n = G->getName();
        if (n == "__cxa_guard_release") { IRBuilder<> B(I); B.CreateCall(rel, {CB->getArgOperand(0)}); continue; }
        Value* hd = n.contains("_Rb_tree_insert_and_rebalance") ? CB->getArgOperand(3) : n.contains("_Rb_tree_rebalance_for_erase") ? CB->getArgOperand(1) : nullptr;
        if (hd) { int k = raceScope(*I); if (k == RC_REPO || k == RC_DYN) { IRBuilder<> B(I); B.SetCurrentDebugLocation(I->getDebugLoc()); for (int o : {8, 16, 24}) B.CreateCall(k == RC_REPO ? race : racec, {B.CreateGEP(B.getInt8Ty(), hd, B.getInt64(o)), B.getInt32(1)}); } continue; }
        if (!outOfLineSys(G)) continue; int k = callScope(*I); if (k < 0) continue; // a library function called from outside the library: says whose operation this is
        IRBuilder<> B(I); B.SetCurrentDebugLocation(I->getDebugLoc()); Value* old = B.CreateCall(ctx, {B.getInt32(k)}); Instruction* at = nullptr;
        if (auto* II = dyn_cast<InvokeInst>(CB)) { BasicBlock* nd = II->getNormalDest(); if (nd->getSinglePredecessor()) at = &*nd->getFirstInsertionPt(); else { BasicBlock* nb = BasicBlock::Create(C, "rc", &F, nd); BranchInst* br = BranchInst::Create(nd, nb); br->setDebugLoc(I->getDebugLoc()); nd->replacePhiUsesWith(II->getParent(), nb); II->setNormalDest(nb); at = br; } }
        else at = I->getNextNode();
        if (at) { IRBuilder<> B2(at); B2.SetCurrentDebugLocation(I->getDebugLoc()); B2.CreateCall(ctx, {old}); } } } } }
static void instrument(Module& M) {
  LLVMContext& C = M.getContext();
  FunctionCallee sched = M.getOrInsertFunction("sx_sched_point", Type::getVoidTy(C));
  bool plain = M.getNamedGlobal("sx_cfg_watch_plain") != nullptr, after = M.getNamedGlobal("sx_cfg_sched_after") != nullptr;
  FunctionCallee acc = M.getOrInsertFunction("sx_access", Type::getVoidTy(C), PointerType::getUnqual(C), Type::getInt64Ty(C), Type::getInt32Ty(C));
  static const char* ren[] = {"pthread_mutex_init","pthread_mutex_destroy","pthread_mutex_lock","pthread_mutex_trylock","pthread_mutex_unlock",
    "pthread_cond_init","pthread_cond_destroy","pthread_cond_wait","pthread_cond_timedwait","pthread_cond_signal","pthread_cond_broadcast",
    "pthread_spin_init","pthread_spin_destroy","pthread_spin_lock","pthread_spin_trylock","pthread_spin_unlock",
    "pthread_rwlock_init","pthread_rwlock_destroy","pthread_rwlock_rdlock","pthread_rwlock_wrlock","pthread_rwlock_unlock","pthread_rwlock_tryrdlock","pthread_rwlock_trywrlock",
    "pthread_create","pthread_join","pthread_self","pthread_once","pthread_key_create","pthread_key_delete","pthread_getspecific","pthread_setspecific","pthread_detach",
    "gettimeofday","clock_gettime","time","usleep","nanosleep","sleep","sched_yield","localtime_r","localtime","gmtime_r","rand","srand","getpid","fcntl"};
  for (const char* n : ren) if (Function* f = M.getFunction(n)) if (f->isDeclaration()) {
    std::string nn = std::string("sx_") + n;
    if (Function* g = M.getFunction(nn)) { f->replaceAllUsesWith(g); f->eraseFromParent(); } else f->setName(nn);
  }
  for (Function& F : M) {
    if (F.isDeclaration()) continue;
    std::vector<Instruction*> work;
    for (BasicBlock& B : F) for (Instruction& I : B) work.push_back(&I);
    for (Instruction* I : work) {
      if (auto* CI = dyn_cast<CallInst>(I)) if (CI->isInlineAsm()) {
        auto* IA = cast<InlineAsm>(CI->getCalledOperand()); std::string s = IA->getAsmString();
        if (s.find(':') != std::string::npos) { if (!translateAsm(M, CI, sched, schedSite(*CI))) errs() << "asm not modelled: " << s << "\n"; continue; }
        bool lock = s.find("lock") != std::string::npos; std::string t = s; size_t p;
        if ((p = t.find("lock")) != std::string::npos) t = t.substr(p + 4);
        size_t b = t.find_first_not_of(" ;\t\n"); t = b == std::string::npos ? "" : t.substr(b);
        std::string mn = t.substr(0, t.find_first_of(" \t"));
        Value* ptr = nullptr; std::vector<Value*> ints; Type* et = nullptr;
        for (unsigned i = 0; i < CI->arg_size(); i++) { Value* a = CI->getArgOperand(i); if (a->getType()->isPointerTy()) { if (CI->getParamElementType(i)) { if (!ptr) { ptr = a; et = CI->getParamElementType(i); } } else ints.push_back(a); } else ints.push_back(a); }
        for (Value*& a : ints) if (a->getType()->isPointerTy()) { IRBuilder<> B(CI); a = B.CreatePtrToInt(a, Type::getInt64Ty(C)); }
        if (mn.empty() || mn == "rep;" || mn == "pause" || mn == "rep") { if (CI->getType()->isVoidTy()) { IRBuilder<> B(CI); B.CreateCall(sched); CI->eraseFromParent(); } continue; }
        std::string base = mn; unsigned w = 0;
        for (const char* k : {"cmpxchg","xchg","xadd","inc","dec","add","sub","or","and","mov"}) if (mn.compare(0, strlen(k), k) == 0) { base = k; std::string suf = mn.substr(strlen(k)); w = suf == "l" ? 32 : suf == "q" ? 64 : suf == "w" ? 16 : suf == "b" ? 8 : 0; break; }
        if (!w && et) w = et->isPointerTy() ? 64 : et->getPrimitiveSizeInBits();
        if (!w && ints.size()) w = ints[0]->getType()->getIntegerBitWidth();
        if (!ptr || !w) continue;
        IRBuilder<> B(CI); Type* T = IntegerType::get(C, w);
        bool ss = schedSite(*CI);
        if (ss) B.CreateCall(sched);
        auto rmw = [&](AtomicRMWInst::BinOp op, Value* v) -> Value* {
          v = B.CreateZExtOrTrunc(v, T);
          if (lock || base == "xchg") return B.CreateAtomicRMW(op, ptr, v, MaybeAlign(w / 8), AtomicOrdering::SequentiallyConsistent);
          Value* old = B.CreateAlignedLoad(T, ptr, MaybeAlign(1)); if (ss) B.CreateCall(sched);
          Value* nv = op == AtomicRMWInst::Add ? B.CreateAdd(old, v) : op == AtomicRMWInst::Sub ? B.CreateSub(old, v) : op == AtomicRMWInst::Or ? B.CreateOr(old, v) : B.CreateAnd(old, v);
          B.CreateAlignedStore(nv, ptr, MaybeAlign(1)); return old; };
        Value* res = nullptr;
        if (base == "inc") rmw(AtomicRMWInst::Add, ConstantInt::get(T, 1));
        else if (base == "dec") rmw(AtomicRMWInst::Sub, ConstantInt::get(T, 1));
        else if (base == "add") rmw(AtomicRMWInst::Add, ints[0]);
        else if (base == "sub") rmw(AtomicRMWInst::Sub, ints[0]);
        else if (base == "or") rmw(AtomicRMWInst::Or, ints[0]);
        else if (base == "and") rmw(AtomicRMWInst::And, ints[0]);
        else if (base == "xadd") res = rmw(AtomicRMWInst::Add, ints[0]);
        else if (base == "xchg") res = rmw(AtomicRMWInst::Xchg, ints[0]);
        else if (base == "cmpxchg") {
          if (ints.size() < 2) { errs() << "asm not modelled: " << *CI << "\n"; continue; } Value *d = B.CreateZExtOrTrunc(ints[0], T), *c = B.CreateZExtOrTrunc(ints[1], T), *old;
          if (lock) { Value* r = B.CreateAtomicCmpXchg(ptr, c, d, MaybeAlign(w / 8), AtomicOrdering::SequentiallyConsistent, AtomicOrdering::SequentiallyConsistent); old = B.CreateExtractValue(r, 0); }
          else { old = B.CreateAlignedLoad(T, ptr, MaybeAlign(1)); if (ss) B.CreateCall(sched); B.CreateAlignedStore(B.CreateSelect(B.CreateICmpEQ(old, c), d, old), ptr, MaybeAlign(1)); }
          if (CI->getType()->isStructTy()) { Value* agg = UndefValue::get(CI->getType()); agg = B.CreateInsertValue(agg, B.CreateZExtOrTrunc(ints[0], CI->getType()->getStructElementType(0)), 0); agg = B.CreateInsertValue(agg, B.CreateZExtOrTrunc(old, CI->getType()->getStructElementType(1)), 1); CI->replaceAllUsesWith(agg); }
          else res = old;
        } else continue;
        if (res && !CI->getType()->isVoidTy()) { if (CI->getType()->isIntegerTy()) CI->replaceAllUsesWith(B.CreateZExtOrTrunc(res, CI->getType())); else continue; }
        if (after && ss) { IRBuilder<> B2(CI->getNextNode()); B2.CreateCall(sched); }
        CI->eraseFromParent(); continue;
      }
      bool vis = false; Value* ptr = nullptr; Type* ty = nullptr; int isStore = 0;
      if (auto* L = dyn_cast<LoadInst>(I)) { vis = L->isVolatile() || L->isAtomic(); ptr = L->getPointerOperand(); ty = L->getType(); }
      else if (auto* S = dyn_cast<StoreInst>(I)) { vis = S->isVolatile() || S->isAtomic(); ptr = S->getPointerOperand(); ty = S->getValueOperand()->getType(); isStore = 1; }
      else if (isa<AtomicRMWInst>(I) || isa<AtomicCmpXchgInst>(I)) vis = true;
      if (vis && schedSite(*I)) { IRBuilder<> B(I); B.CreateCall(sched); if (after && !isa<LoadInst>(I)) { IRBuilder<> B2(I->getNextNode()); B2.CreateCall(sched); } }
      else if (plain && !vis && ptr && !isa<AllocaInst>(ptr->stripInBoundsOffsets()) && !isa<GlobalVariable>(ptr->stripInBoundsOffsets())) {
        std::string f = locFile(*I);
        if (f.compare(0, optRepo.size(), optRepo) == 0 && schedSite(*I)) { IRBuilder<> B(I); B.CreateCall(acc, {ptr, B.getInt64(M.getDataLayout().getTypeStoreSize(ty)), B.getInt32(isStore)}); }
      }
    }
  }
  if (M.getNamedGlobal("sx_cfg_race")) instrumentRace(M);
}

// ------------------------------------------------------------------ memory
struct Obj {
  int rc = 1; u64 size = 0; uint8_t kind = 0 /*0 global 1 heap 2 stack 3 func*/; bool freed = false, ro = false; uint8_t how = 0 /*alloc family*/;
  std::vector<uint8_t> conc; std::vector<const Node*> sym; // sym empty or size
  const char* freedAt = nullptr; bool hv = false; u64 h = 0;
};
struct ORef { Obj* p; ORef() : p(nullptr) {} ORef(Obj* o) : p(o) {} ORef(const ORef& o) : p(o.p) { if (p) p->rc++; } ORef(ORef&& o) noexcept : p(o.p) { o.p = nullptr; }
  ORef& operator=(const ORef& o) { if (o.p) o.p->rc++; rel(); p = o.p; return *this; } ORef& operator=(ORef&& o) noexcept { std::swap(p, o.p); return *this; } ~ORef() { rel(); }
  void rel() { if (p && --p->rc == 0) delete p; p = nullptr; } };
static const int IDSH = 28; // address = (id+1)<<28 | (offset + PAD)
static const u64 PAD = 4096;
static inline u64 objBase(u64 id) { return ((id + 1) << IDSH) + PAD; }
static inline i64 addrId(u64 a) { i64 t = (i64)(a >> IDSH); return t - 1; }

// ------------------------------------------------------------------ compiled functions
struct FnInfo;
enum { K_NONE = 0 };
struct Edge { int pc; std::vector<std::pair<int, int>> phis; };
struct GepStep { int op; u64 scale; };
struct I_ { unsigned opc; uint16_t w; int dst; int a, b, c; int aux; Instruction* inst; bool pad; };
struct CallI { int calleeOp; Function* direct; std::vector<int> args; std::vector<std::pair<unsigned, u64>> byval; int normalEdge, unwindEdge; };
struct FnInfo {
  Function* F; std::string name; int nslots = 0; std::vector<I_> code; std::vector<Val> consts; std::vector<Edge> edges; std::vector<std::vector<GepStep>> geps; std::vector<u64> gepc;
  std::vector<CallI> calls; std::vector<std::vector<std::pair<Val, int>>> switches; std::vector<std::vector<unsigned>> idxs; std::vector<int> argSlots; int handler = -1; bool decl = false; std::unordered_map<Value*, int> slot; bool liveDone = false; std::unordered_map<BasicBlock*, std::set<Value*>> liveIn; std::unordered_map<Instruction*, std::vector<int>> liveAt;
};
struct Frame { int rc = 1; FnInfo* fn; int pc; int retDst; std::vector<Val> regs; std::vector<u64> allocas; std::vector<Val> varargs; int normalEdge = -1; };
struct FRef { Frame* p; FRef() : p(nullptr) {} FRef(Frame* o) : p(o) {} FRef(const FRef& o) : p(o.p) { if (p) p->rc++; } FRef(FRef&& o) noexcept : p(o.p) { o.p = nullptr; }
  FRef& operator=(const FRef& o) { if (o.p) o.p->rc++; rel(); p = o.p; return *this; } FRef& operator=(FRef&& o) noexcept { std::swap(p, o.p); return *this; } ~FRef() { rel(); }
  void rel() { if (p && --p->rc == 0) delete p; p = nullptr; } };
struct Thread { std::vector<FRef> st; int status = 0; /*0 run 1 blocked 2 done*/ u64 blockAddr = 0; int blockWant = 0; bool passed = false; u64 excPtr = 0; Constant* excTy = nullptr; int excSel = 0; std::vector<std::pair<u64, Constant*>> caught; };
struct Input { std::string name; const Node* var; };
struct Note { int tag; Val v; };
struct State {
  std::vector<ORef> mem; std::vector<u64> freeStack[9]; std::vector<Thread> th; int cur = 0; std::vector<const Node*> pc; std::shared_ptr<std::vector<u64>> model;
  std::vector<Input> inputs; std::vector<Note> notes; std::vector<std::pair<u64, u64>> watch; std::unordered_map<const Node*, Val> known; u64 steps = 0; int preempt = 0; u64 nconc = 0; i64 heapLive = 0; bool started = false; int quiet = 0; int nsched = 0; u64 hashc = 0;
  std::set<std::string> reached; bool nodead = false; std::shared_ptr<Race> race;
  bool hashOn = false; u64 memHash = 0; std::vector<u64> dirty; u64 nextId[9]; size_t nsIn = 0, nsSched = 0;
};
static std::unordered_map<Function*, FnInfo*> fns; static std::unordered_map<Value*, u64> gaddr; static std::vector<FnInfo*> fnByObj;
static State* S; static std::vector<State*> work;
struct PathEnd { };
struct ForkRedo { };

// results
struct Viol { std::string kind, msg, where; std::vector<std::pair<std::string, std::pair<uint32_t, u64>>> inputs; std::vector<std::string> stack; std::vector<std::pair<int,u64>> notes; };
struct Sample { std::vector<std::pair<std::string, std::pair<uint32_t, u64>>> inputs; std::vector<std::pair<int,u64>> notes; };
static std::vector<Viol> viols; static std::vector<Sample> samples; static std::map<std::string, u64> violCount;
static u64 nPaths = 0, nForks = 0, nSteps = 0, nAsserts = 0, nAssertQ = 0, nMemChk = 0, nAssumeKill = 0, nSched = 0, nConcForks = 0; static std::set<std::string> incomplete; static std::map<std::string, u64> reach;
static std::map<std::string, std::set<int>> cover; static std::set<std::string> fcover; static u64 maxPathSteps = 0;
static std::unordered_set<const void*> covSeen; static std::mt19937 rng(1);

static std::string demangle_(const std::string& s);
#include <cxxabi.h>
static std::string demangle_(const std::string& s) { int st; char* d = abi::__cxa_demangle(s.c_str(), 0, 0, &st); std::string r = d && st == 0 ? d : s; free(d); return r; }

static std::string srcLoc(Instruction* I) { if (!I) return "?"; const DILocation* l = I->getDebugLoc(); if (!l) return std::string("?:") + I->getFunction()->getName().str(); std::string f = locFile(*I); return f + ":" + std::to_string(l->getLine()); }
static Instruction* curInst = nullptr;
static Frame& top() { return *S->th[S->cur].st.back().p; }
static Frame& topW() { FRef& r = S->th[S->cur].st.back(); if (r.p->rc > 1) { Frame* n = new Frame(*r.p); n->rc = 1; r.p->rc--; r.p = n; } return *r.p; }

static std::vector<std::pair<std::string, std::pair<uint32_t, u64>>> concInputs(const std::vector<u64>& m) {
  std::vector<std::pair<std::string, std::pair<uint32_t, u64>>> r;
  for (auto& i : S->inputs) r.push_back({i.name, {i.var->w, (u64)E.eval(i.var, m)}}); return r; }
static std::vector<std::pair<int,u64>> concNotes(const std::vector<u64>& m) { std::vector<std::pair<int,u64>> r; for (auto& n : S->notes) r.push_back({n.tag, n.v.n ? (u64)E.eval(n.v.n, m) : n.v.c}); return r; }
static void recordViol(const std::string& kind, const std::string& msg, const std::vector<u64>& m) {
  std::string where;
  Viol v; v.kind = kind; v.msg = msg;
  auto& st = S->th[S->cur].st;
  for (int i = (int)st.size() - 1; i >= 0; i--) { Frame& f = *st[i].p; Instruction* I = (i == (int)st.size() - 1) ? curInst : (f.pc > 0 ? f.fn->code[f.pc - 1].inst : nullptr); 
    std::string l = srcLoc(I); if (where.empty() && l.compare(0, optRepo.size(), optRepo) == 0) where = l; v.stack.push_back(demangle_(f.fn->name) + " @ " + l);
    if (I) if (const DILocation* dl = I->getDebugLoc()) for (const DILocation* ia = dl->getInlinedAt(); ia; ia = ia->getInlinedAt()) { std::string l2 = ia->getFilename().str() + ":" + std::to_string(ia->getLine()); if (where.empty() && l2.compare(0, optRepo.size(), optRepo) == 0) where = l2; v.stack.push_back("  inlined at " + l2); } }
  if (where.empty() && v.stack.size()) where = v.stack[0];
  if (kind == "deadlock") for (int t = 0; t < (int)S->th.size(); t++) if (t != S->cur && S->th[t].status != 2) { v.stack.push_back("thread " + std::to_string(t)); auto& q = S->th[t].st; for (int i = (int)q.size() - 1; i >= 0 && i >= (int)q.size() - 5; i--) { Frame& f = *q[i].p; int pc = i == (int)q.size() - 1 ? f.pc : f.pc - 1; Instruction* I = pc >= 0 && pc < (int)f.fn->code.size() ? f.fn->code[pc].inst : nullptr; v.stack.push_back("  " + demangle_(f.fn->name).substr(0, 90) + " @ " + srcLoc(I)); } }
  v.where = where;
  std::string key = kind + "|" + msg + "|" + (kind == "assert" ? "" : where);
  if (violCount[key]++ == 0) { v.inputs = concInputs(m); v.notes = concNotes(m); viols.push_back(v); if (optVerbose) fprintf(stderr, "VIOL %s %s at %s\n", kind.c_str(), msg.c_str(), where.c_str()); }
}
[[noreturn]] static void violation(const std::string& kind, const std::string& msg) { recordViol(kind, msg, *S->model); throw PathEnd(); }
[[noreturn]] static void giveup(const std::string& why) { incomplete.insert(why + " @ " + srcLoc(curInst)); if (optVerbose) { fprintf(stderr, "INCOMPLETE %s @ %s\n", why.c_str(), srcLoc(curInst).c_str()); for (auto& f : S->th[S->cur].st) fprintf(stderr, "   in %s\n", demangle_(f.p->fn->name).c_str()); } throw PathEnd(); }

// ------------------------------------------------------------------ constraints
static bool inPc(const Node* c) { for (auto p : S->pc) if (p == c) return true; return false; }
static void slice(const Node* cond, std::vector<const Node*>& out) {
  VarSet vs = E.vset(cond); std::vector<bool> used(S->pc.size(), false); bool ch = true; out.push_back(cond);
  while (ch) { ch = false;
    for (size_t i = 0; i < S->pc.size(); i++) if (!used[i]) { const VarSet& o = E.vset(S->pc[i]); bool hit = false; size_t n = std::min(o.size(), vs.size()); for (size_t j = 0; j < n; j++) if (o[j] & vs[j]) { hit = true; break; }
      if (hit) { used[i] = true; out.push_back(S->pc[i]); if (o.size() > vs.size()) vs.resize(o.size()); for (size_t j = 0; j < o.size(); j++) { if (o[j] & ~vs[j]) ch = true; vs[j] |= o[j]; } } } }
}
// is pc & cond satisfiable?  On sat, m is a full model.
static int feasible(const Node* cond, std::shared_ptr<std::vector<u64>>& m) {
  if (cond->op == O_CONST) { if (cond->k) { m = S->model; return 1; } return 0; }
  if (E.eval(cond, *S->model)) { m = S->model; return 1; }
  if (inPc(E.mkNot(cond))) return 0;
  std::vector<const Node*> cs; slice(cond, cs); std::vector<std::pair<uint32_t, u64>> pm;
  int r = SV->check(cs, pm);
  if (r == 1) { auto nm = std::make_shared<std::vector<u64>>(*S->model); for (auto& x : pm) { if (x.first >= nm->size()) nm->resize(x.first + 1); (*nm)[x.first] = x.second; } 
    m = nm;
    if (!E.eval(cond, *nm)) { incomplete.insert("model-mismatch"); } }
  return r;
}
static void addPc(State* s, const Node* c) { 
  if (c->op == O_CONST) return;
  if (c->op == O_AND && c->w == 1) { addPc(s, c->a); addPc(s, c->b); return; }
  for (auto p : s->pc) if (p == c) return; s->pc.push_back(c);
  if (c->op == O_EQ && Exprs::isK(c->b)) s->known[c->a] = E.val(c->b);
  else if (c->op == O_EQ && Exprs::isK(c->a)) s->known[c->b] = E.val(c->a);
}
static void flushHash();
static State* forkState() { nForks++; if (S->hashOn) flushHash(); State* o = new State(*S); auto& st = o->th[o->cur].st; if (!st.empty()) { Frame* n = new Frame(*st.back().p); n->rc = 1; st.back() = FRef(n); } return o; }

// decide a branch: returns the value taken by S; pushes the other side if feasible.  Redo=false: other side continues after caller sets pc.
// Here both sides re-execute the instruction with the condition recorded as known.
static bool branchRedo(const Val& c) {
  if (c.isC()) return c.c & 1;
  auto it = S->known.find(c.n); if (it != S->known.end()) return it->second.c & 1;
  bool cur = E.eval(c.n, *S->model) != 0; const Node* oc = cur ? E.mkNot(c.n) : c.n; const Node* tc = cur ? c.n : E.mkNot(c.n);
  std::shared_ptr<std::vector<u64>> m; int r = feasible(oc, m);
  if (r == -1) { incomplete.insert("solver unknown @ " + srcLoc(curInst)); }
  if (r == 1) { State* o = forkState(); addPc(o, oc); o->model = m; o->known[c.n] = Val(!cur, 1); work.push_back(o); }
  if (r != 0) addPc(S, tc);
  S->known[c.n] = Val(cur, 1);
  return cur;
}
// concretize by exhaustive case split
static u64 conc(const Val& v) {
  if (v.isC()) return v.c;
  auto it = S->known.find(v.n); if (it != S->known.end()) return it->second.c;
  if (v.n->op == O_AGG) giveup("aggregate concretization");
  if (v.n->op == O_CONST) return (u64)v.n->k;
  u64 x = (u64)E.eval(v.n, *S->model); const Node* eq = E.mk(O_EQ, 1, v.n, E.K(x, v.w));
  std::shared_ptr<std::vector<u64>> m; int r = feasible(E.mkNot(eq), m);
  if (r == -1) incomplete.insert("solver unknown @ " + srcLoc(curInst));
  if (r == 1) { if (++S->nconc > optMaxConc) giveup("too many concretizations"); nConcForks++; State* o = forkState(); addPc(o, E.mkNot(eq)); o->model = m; work.push_back(o); addPc(S, eq); }
  S->known[v.n] = Val(x, v.w); return x;
}

// ------------------------------------------------------------------ memory ops
static inline u64 mix64(u64 x) { x ^= x >> 33; x *= 0xff51afd7ed558ccdULL; x ^= x >> 33; x *= 0xc4ceb9fe1a85ec53ULL; x ^= x >> 33; return x; }
static inline u64 mixId(u64 id, u64 h) { return mix64(h ^ mix64(id + 0x9E3779B97F4A7C15ULL)); }
static u64 allocObj(u64 size, int kind, uint8_t fill) {
  u64 id; Obj* o = new Obj(); o->size = size; o->kind = kind; o->conc.assign(size, fill);
  // once threads exist every thread draws ids from its own residue class, so that addresses do not depend on the interleaving
  auto& fs = S->freeStack[S->hashOn ? 1 + (S->cur & 7) : 0];
  if (kind == 2 && !fs.empty()) { id = fs.back(); fs.pop_back(); S->mem[id] = ORef(o); }
  else if (S->hashOn) { id = S->nextId[S->cur & 7]; S->nextId[S->cur & 7] += 8; if (S->mem.size() <= id) S->mem.resize(id + 1); S->mem[id] = ORef(o); }
  else { id = S->mem.size(); S->mem.push_back(ORef(o)); }
  if (S->hashOn) S->dirty.push_back(id);
  return objBase(id);
}
static Obj* wobj(u64 id) { ORef& r = S->mem[id]; if (r.p->rc > 1) { Obj* n = new Obj(*r.p); n->rc = 1; r.p->rc--; r.p = n; } if (r.p->hv) { if (S->hashOn) { S->memHash -= mixId(id, r.p->h); S->dirty.push_back(id); } r.p->hv = false; } return r.p; }
static std::string ptrDesc(u64 a) { i64 id = addrId(a); char b[160]; if (a < (1ull << IDSH)) snprintf(b, sizeof b, "null-page address 0x%llx", (unsigned long long)a); else if (id >= 0 && id < (i64)S->mem.size() && S->mem[id].p) snprintf(b, sizeof b, "offset %lld of a %s object of %llu bytes%s", (long long)(a - objBase(id)), S->mem[id].p->kind == 1 ? "heap" : S->mem[id].p->kind == 2 ? "stack" : "global", (unsigned long long)S->mem[id].p->size, S->mem[id].p->freed ? " (freed)" : ""); else snprintf(b, sizeof b, "wild address 0x%llx", (unsigned long long)a); return b; }
static u64 checkAcc(u64 a, u64 n, bool wr) { // returns id
  nMemChk++;
  i64 id = addrId(a);
  if (id < 0 || id >= (i64)S->mem.size() || !S->mem[id].p) violation("memory", std::string(wr ? "write" : "read") + " through invalid pointer (" + (a < (1ull << IDSH) ? "null" : "wild") + ")");
  Obj* o = S->mem[id].p;
  if (o->freed) violation("memory", std::string(wr ? "write" : "read") + " of freed memory");
  u64 off = a - objBase(id);
  if (a < objBase(id) || off > o->size || n > o->size - off) violation("memory", std::string(wr ? "out-of-bounds write" : "out-of-bounds read") + (o->kind == 1 ? " (heap)" : o->kind == 2 ? " (stack)" : " (global)"));
  if (wr && (o->ro || o->kind == 3)) violation("memory", "write to read-only memory");
  return id;
}
static Val loadConc(u64 a, u32 bytes, u32 w) {
  u64 id = checkAcc(a, bytes, false); Obj* o = S->mem[id].p; u64 off = a - objBase(id);
  bool sym = false; if (!o->sym.empty()) for (u32 i = 0; i < bytes; i++) if (o->sym[off + i]) { sym = true; break; }
  if (!sym && bytes <= 8) { u64 v = 0; memcpy(&v, &o->conc[off], bytes); return Val(v, w); }
  const Node* r = nullptr; for (u32 i = 0; i < bytes; i++) { const Node* b = (!o->sym.empty() && o->sym[off + i]) ? o->sym[off + i] : E.K(o->conc[off + i], 8); r = r ? E.mkConcat(b, r) : b; }
  if (w < bytes * 8) r = E.mkExtract(r, 0, w);
  return E.val(r);
}
static inline void putByte(Obj* o, u64 off, const Val& b) {
  if (b.isC()) { o->conc[off] = (uint8_t)b.c; if (!o->sym.empty()) o->sym[off] = nullptr; }
  else { if (o->sym.empty()) o->sym.assign(o->size, nullptr); o->sym[off] = b.n; }
}
static void storeConc(u64 a, const Val& v0, u32 bytes) {
  u64 id = checkAcc(a, bytes, true); Obj* o = wobj(id); u64 off = a - objBase(id);
  if (v0.isC() && bytes <= 8) { memcpy(&o->conc[off], &v0.c, bytes); if (!o->sym.empty()) for (u32 i = 0; i < bytes; i++) o->sym[off + i] = nullptr; return; }
  Val v = v0.w < bytes * 8 ? E.zext(v0, bytes * 8) : v0;
  for (u32 i = 0; i < bytes; i++) putByte(o, off + i, E.extract(v, 8 * i, 8));
}
// all values of a node if its variables have few bits; else via solver.  Returns false when too many.
static bool enumVals(const Node* n, std::vector<u64>& out, size_t limit) {
  const VarSet& vs = E.vset(n); std::vector<uint32_t> ids; unsigned bits = 0;
  for (size_t i = 0; i < vs.size(); i++) for (u64 b = vs[i]; b; b &= b - 1) { uint32_t id = i * 64 + __builtin_ctzll(b); ids.push_back(id); bits += E.vars[id].w; }
  if (bits <= 12) { std::set<u64> s; std::vector<u64> m(*S->model); for (auto id : ids) if (id >= m.size()) m.resize(id + 1);
    // single-variable-set constraints restrict the candidates
    std::vector<const Node*> loc; for (auto c : S->pc) { const VarSet& o = E.vset(c); bool sub = true; for (size_t j = 0; j < o.size(); j++) if (o[j] & ~(j < vs.size() ? vs[j] : 0)) { sub = false; break; } if (sub) loc.push_back(c); }
    for (u64 t = 0; t < (1ull << bits); t++) { u64 x = t; for (auto id : ids) { m[id] = x & ((1ull << E.vars[id].w) - 1); x >>= E.vars[id].w; } ++E.epoch; bool ok = true; for (auto c : loc) if (!E.ev(c, m)) { ok = false; break; } if (ok) s.insert((u64)E.ev(n, m)); }
    out.assign(s.begin(), s.end()); return out.size() <= limit; }
  // solver enumeration
  std::vector<const Node*> save = S->pc; bool done = false; auto sm = S->model;
  while (out.size() <= limit) { u64 x = (u64)E.eval(n, *S->model); out.push_back(x); const Node* ne = E.mkNot(E.mk(O_EQ, 1, n, E.K(x, n->w))); std::shared_ptr<std::vector<u64>> m; int r = feasible(ne, m); if (r != 1) { done = r == 0; break; } addPc(S, ne); S->model = m; }
  S->pc = save; S->model = sm; return done;
}
// symbolic pointer -> confine to one object (forking); returns object id, pointer guaranteed in bounds for n bytes
static u64 resolveObj(const Val& p, u64 n, bool wr) {
  u64 x = (u64)E.eval(p.n, *S->model); i64 id = addrId(x);
  bool ok = id >= 0 && id < (i64)S->mem.size() && S->mem[id].p && !S->mem[id].p->freed && S->mem[id].p->size >= n && x >= objBase(id) && x - objBase(id) <= S->mem[id].p->size - n;
  if (!ok) { checkAcc(x, n, wr); giveup("resolveObj"); }
  Obj* o = S->mem[id].p;
  const Node* inb = E.mk(O_ULE, 1, E.mk(O_SUB, 64, p.n, E.K(objBase(id), 64)), E.K(o->size - n, 64));
  nAssertQ++;
  std::shared_ptr<std::vector<u64>> m; int r = feasible(E.mkNot(inb), m);
  if (r == -1) incomplete.insert("solver unknown @ " + srcLoc(curInst));
  if (r == 1) { State* o2 = forkState(); addPc(o2, E.mkNot(inb)); o2->model = m; work.push_back(o2); addPc(S, inb); }
  if (wr && o->ro) violation("memory", "write to read-only memory");
  return id;
}
static Val resolveKnown(const Val& v) { if (v.n) { auto it = S->known.find(v.n); if (it != S->known.end()) return it->second; if (v.n->op == O_ADD && Exprs::isK(v.n->b)) { it = S->known.find(v.n->a); if (it != S->known.end()) return Val(it->second.c + (u64)v.n->b->k, v.w); } } return v; }
static Val load(const Val& p0, u32 bytes, u32 w) {
  Val p = resolveKnown(p0);
  if (p.isC()) return loadConc(p.c, bytes, w);
  u64 id = resolveObj(p, bytes, false);
  std::vector<u64> vals; if (!enumVals(p.n, vals, 2048)) { u64 x = conc(p); return loadConc(x, bytes, w); }
  if (vals.size() <= 1) return loadConc(vals.empty() ? conc(p) : vals[0], bytes, w);
  // group by value to keep the chain short
  std::vector<std::pair<u64, Val>> items; Obj* o = S->mem[id].p;
  for (u64 x : vals) { u64 off = x - objBase(id); if (x < objBase(id) || off > o->size || bytes > o->size - off) continue; items.push_back({x, loadConc(x, bytes, w)}); }
  if (items.empty()) return loadConc(conc(p), bytes, w);
  // most common value is the default
  std::map<std::pair<u64, u64>, int> cnt; for (auto& it : items) cnt[{(u64)it.second.n, it.second.c}]++;
  Val def = items.back().second; int best = 0; for (auto& it : items) { int k = cnt[{(u64)it.second.n, it.second.c}]; if (k > best) { best = k; def = it.second; } }
  const Node* r = E.node(def);
  for (auto it = items.rbegin(); it != items.rend(); ++it) { const Node* v = E.node(it->second); if (v == E.node(def)) continue; r = E.mk(O_ITE, w, E.mk(O_EQ, 1, p.n, E.K(it->first, 64)), v, r); }
  return E.val(r);
}
static void store(const Val& p0, const Val& v, u32 bytes) {
  Val p = resolveKnown(p0);
  if (p.isC()) { storeConc(p.c, v, bytes); return; }
  u64 id = resolveObj(p, bytes, true);
  std::vector<u64> vals; if (!enumVals(p.n, vals, 64)) { storeConc(conc(p), v, bytes); return; }
  Obj* o0 = S->mem[id].p; 
  for (u64 x : vals) { u64 off = x - objBase(id); if (x < objBase(id) || off > o0->size || bytes > o0->size - off) continue; const Node* c = E.mk(O_EQ, 1, p.n, E.K(x, 64)); Val old = loadConc(x, bytes, bytes * 8); Val nv = v.w < bytes * 8 ? E.zext(v, bytes * 8) : v; storeConc(x, E.ite(E.val(c), nv, old), bytes); }
}
static Val byteAt(u64 a) { return loadConc(a, 1, 8); }

// ------------------------------------------------------------------ constants
static void constBytes(const Constant* C, u64 addr, Obj* o, u64 off);
static u64 constAddr(const Constant* C);
static Val constVal(const Constant* C) {
  Type* T = C->getType();
  if (auto* CI = dyn_cast<ConstantInt>(C)) { unsigned w = CI->getBitWidth(); if (w <= 64) return Val(CI->getZExtValue(), w); u128 v = CI->getValue().getRawData()[0]; if (CI->getValue().getNumWords() > 1) v |= (u128)CI->getValue().getRawData()[1] << 64; Val r; r.n = E.K(v, w); r.w = w; return r; }
  if (auto* CF = dyn_cast<ConstantFP>(C)) { APInt b = CF->getValueAPF().bitcastToAPInt(); if (b.getBitWidth() > 64) { Val r; r.n = E.K(0, 128); r.w = 128; return r; } return Val(b.getZExtValue(), b.getBitWidth()); }
  if (isa<ConstantPointerNull>(C)) return Val(0, 64);
  if (T->isStructTy() || T->isArrayTy() || T->isVectorTy()) {
    unsigned n = T->isStructTy() ? T->getStructNumElements() : T->isArrayTy() ? T->getArrayNumElements() : cast<FixedVectorType>(T)->getNumElements();
    Node* a = new Node(); memset((void*)a, 0, sizeof *a); a->op = O_AGG; a->vs = &E.emptySet; a->agg = new std::vector<Val>();
    for (unsigned i = 0; i < n; i++) { Constant* e = C->getAggregateElement(i); a->agg->push_back(e ? constVal(e) : Val(0, 64)); }
    Val r; r.n = a; r.w = 0; return r; }
  if (isa<UndefValue>(C)) { if (T->isPointerTy()) return Val(0, 64); unsigned w = T->getPrimitiveSizeInBits(); if (w > 64) { Val r; r.n = E.K(0, w); r.w = w; return r; } return Val(0, w); }
  if (auto* GV = dyn_cast<GlobalValue>(C)) { if (auto* GA = dyn_cast<GlobalAlias>(GV)) return constVal(GA->getAliasee()); auto it = gaddr.find((Value*)GV); if (it == gaddr.end()) { fprintf(stderr, "no address for %s\n", GV->getName().str().c_str()); abort(); } return Val(it->second, 64); }
  if (auto* CE = dyn_cast<ConstantExpr>(C)) {
    switch (CE->getOpcode()) {
      case Instruction::GetElementPtr: { APInt off(64, 0); if (cast<GEPOperator>(CE)->accumulateConstantOffset(*DL, off)) return Val(constVal(CE->getOperand(0)).c + off.getZExtValue(), 64); break; }
      case Instruction::BitCast: case Instruction::AddrSpaceCast: return constVal(CE->getOperand(0));
      case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::Trunc: { Val v = constVal(CE->getOperand(0)); return Val(v.c, T->isPointerTy() ? 64 : T->getIntegerBitWidth()); }
      case Instruction::Add: return E.bin(O_ADD, constVal(CE->getOperand(0)), constVal(CE->getOperand(1)), T->getIntegerBitWidth());
      case Instruction::Sub: return E.bin(O_SUB, constVal(CE->getOperand(0)), constVal(CE->getOperand(1)), T->getIntegerBitWidth());
      case Instruction::ICmp: { Val a = constVal(CE->getOperand(0)), b = constVal(CE->getOperand(1)); auto p = (CmpInst::Predicate)CE->getPredicate(); if (p == CmpInst::ICMP_EQ) return Val(a.c == b.c, 1); if (p == CmpInst::ICMP_NE) return Val(a.c != b.c, 1); break; }
      default: break; }
  }
  std::string s; raw_string_ostream os(s); C->print(os); fprintf(stderr, "unsupported constant: %s\n", s.c_str()); return Val(0, 64);
}
static void constBytes(const Constant* C, Obj* o, u64 off) {
  Type* T = C->getType(); u64 sz = DL->getTypeStoreSize(T);
  if (isa<ConstantAggregateZero>(C) || isa<UndefValue>(C)) { memset(o->conc.data() + off, 0, std::min<u64>(sz, o->size - off)); return; }
  if (auto* CS = dyn_cast<ConstantStruct>(C)) { const StructLayout* SL = DL->getStructLayout(CS->getType()); for (unsigned i = 0; i < CS->getNumOperands(); i++) constBytes(CS->getOperand(i), o, off + SL->getElementOffset(i)); return; }
  if (auto* CD = dyn_cast<ConstantDataSequential>(C)) { StringRef r = CD->getRawDataValues(); memcpy(o->conc.data() + off, r.data(), r.size()); return; }
  if (auto* CA = dyn_cast<ConstantArray>(C)) { u64 es = DL->getTypeAllocSize(CA->getType()->getElementType()); for (unsigned i = 0; i < CA->getNumOperands(); i++) constBytes(CA->getOperand(i), o, off + i * es); return; }
  Val v = constVal(C); if (v.isC()) memcpy(o->conc.data() + off, &v.c, std::min<u64>(sz, 8)); else if (v.n->op == O_CONST) memcpy(o->conc.data() + off, &v.n->k, std::min<u64>(sz, 16));
}

// ------------------------------------------------------------------ function compilation
static unsigned tyBits(Type* T) { if (T->isPointerTy()) return 64; if (T->isVoidTy()) return 0; if (T->isStructTy() || T->isArrayTy()) return 0; return T->getPrimitiveSizeInBits(); }
enum { X_FORGET = 1000 };
static int handlerFor(const std::string& n);
static FnInfo* compile(Function* F) {
  auto it = fns.find(F); if (it != fns.end()) return it->second;
  FnInfo* fi = new FnInfo(); fi->F = F; fi->name = F->getName().str(); fns[F] = fi;
  fi->handler = handlerFor(fi->name);
  if (F->isDeclaration() || fi->handler >= 0) { fi->decl = true; return fi; }
  std::unordered_map<Value*, int>& slot = fi->slot; for (Argument& a : F->args()) { fi->argSlots.push_back(fi->nslots); slot[&a] = fi->nslots++; }
  for (BasicBlock& B : *F) for (Instruction& I : B) if (!I.getType()->isVoidTy()) slot[&I] = fi->nslots++;
  std::unordered_map<Constant*, int> cmap;
  auto opnd = [&](Value* v) -> int { auto s = slot.find(v); if (s != slot.end()) return s->second; if (auto* c = dyn_cast<Constant>(v)) { auto k = cmap.find(c); if (k != cmap.end()) return k->second; fi->consts.push_back(constVal(c)); return cmap[c] = -(int)fi->consts.size(); } return 0x7fffffff; };
  std::unordered_map<BasicBlock*, int> start; std::vector<std::tuple<int, BasicBlock*, BasicBlock*>> fix;
  auto edge = [&](BasicBlock* from, BasicBlock* to) { fi->edges.push_back(Edge()); fix.push_back({(int)fi->edges.size() - 1, from, to}); return (int)fi->edges.size() - 1; };
  for (BasicBlock& B : *F) { start[&B] = fi->code.size();
    for (Instruction& I : B) {
      if (isa<PHINode>(I) || isa<DbgInfoIntrinsic>(I)) continue;
      if (auto* II = dyn_cast<IntrinsicInst>(&I)) { auto id = II->getIntrinsicID(); if (id == Intrinsic::lifetime_start || id == Intrinsic::assume || id == Intrinsic::experimental_noalias_scope_decl || id == Intrinsic::donothing || id == Intrinsic::invariant_start || id == Intrinsic::invariant_end || id == Intrinsic::prefetch) continue; }
      I_ x; x.opc = I.getOpcode(); x.inst = &I; x.dst = I.getType()->isVoidTy() ? -1 : slot[&I]; x.w = tyBits(I.getType()); x.a = x.b = x.c = 0x7fffffff; x.aux = -1; x.pad = false;
      switch (x.opc) {
        case Instruction::Br: { auto* BI = cast<BranchInst>(&I); if (BI->isConditional()) { x.a = opnd(BI->getCondition()); x.b = edge(&B, BI->getSuccessor(0)); x.c = edge(&B, BI->getSuccessor(1)); } else { x.b = edge(&B, BI->getSuccessor(0)); x.aux = 1; } break; }
        case Instruction::Switch: { auto* SI = cast<SwitchInst>(&I); x.a = opnd(SI->getCondition()); std::vector<std::pair<Val, int>> t; for (auto c : SI->cases()) t.push_back({constVal(c.getCaseValue()), edge(&B, c.getCaseSuccessor())}); x.b = edge(&B, SI->getDefaultDest()); fi->switches.push_back(t); x.aux = fi->switches.size() - 1; break; }
        case Instruction::GetElementPtr: { auto* G = cast<GetElementPtrInst>(&I); x.a = opnd(G->getPointerOperand()); u64 cst = 0; std::vector<GepStep> st;
          for (auto gi = gep_type_begin(G), ge = gep_type_end(G); gi != ge; ++gi) { Value* idx = gi.getOperand(); if (StructType* ST = gi.getStructTypeOrNull()) cst += DL->getStructLayout(ST)->getElementOffset(cast<ConstantInt>(idx)->getZExtValue()); else { u64 es = DL->getTypeAllocSize(gi.getIndexedType()); if (auto* ci = dyn_cast<ConstantInt>(idx)) cst += es * (u64)ci->getSExtValue(); else st.push_back({opnd(idx), es}); } }
          fi->geps.push_back(st); fi->gepc.push_back(cst); x.aux = fi->geps.size() - 1; break; }
        case Instruction::Call: case Instruction::Invoke: { auto* CB = cast<CallBase>(&I); CallI c; c.direct = dyn_cast<Function>(CB->getCalledOperand()->stripPointerCasts()); c.calleeOp = c.direct ? 0x7fffffff : opnd(CB->getCalledOperand()); if (!c.direct) if (auto* ga = dyn_cast<GlobalAlias>(CB->getCalledOperand()->stripPointerCasts())) c.direct = dyn_cast<Function>(ga->getAliaseeObject());
          for (unsigned i = 0; i < CB->arg_size(); i++) { Value* a = CB->getArgOperand(i); if (a->getType()->isMetadataTy()) { c.args.push_back(0x7fffffff); continue; } c.args.push_back(opnd(a)); if (CB->isByValArgument(i)) c.byval.push_back({i, DL->getTypeAllocSize(CB->getParamByValType(i))}); }
          c.normalEdge = c.unwindEdge = -1; if (auto* IV = dyn_cast<InvokeInst>(&I)) { c.normalEdge = edge(&B, IV->getNormalDest()); c.unwindEdge = edge(&B, IV->getUnwindDest()); }
          fi->calls.push_back(c); x.aux = fi->calls.size() - 1; break; }
        case Instruction::ExtractValue: { auto* EV = cast<ExtractValueInst>(&I); x.a = opnd(EV->getAggregateOperand()); fi->idxs.push_back(std::vector<unsigned>(EV->idx_begin(), EV->idx_end())); x.aux = fi->idxs.size() - 1; break; }
        case Instruction::InsertValue: { auto* IV = cast<InsertValueInst>(&I); x.a = opnd(IV->getAggregateOperand()); x.b = opnd(IV->getInsertedValueOperand()); fi->idxs.push_back(std::vector<unsigned>(IV->idx_begin(), IV->idx_end())); x.aux = fi->idxs.size() - 1; break; }
        case Instruction::Alloca: { auto* A = cast<AllocaInst>(&I); x.a = opnd(A->getArraySize()); x.aux = DL->getTypeAllocSize(A->getAllocatedType()); break; }
        case Instruction::Load: x.a = opnd(I.getOperand(0)); x.aux = DL->getTypeStoreSize(I.getType()); break;
        case Instruction::Store: x.a = opnd(I.getOperand(0)); x.b = opnd(I.getOperand(1)); x.aux = DL->getTypeStoreSize(I.getOperand(0)->getType()); break;
        default: if (I.getNumOperands() > 0 && !isa<LandingPadInst>(I)) x.a = opnd(I.getOperand(0)); if (I.getNumOperands() > 1 && !isa<LandingPadInst>(I)) x.b = opnd(I.getOperand(1)); if (I.getNumOperands() > 2 && !isa<LandingPadInst>(I)) x.c = opnd(I.getOperand(2)); break;
      }
      fi->code.push_back(x);
    } }
  for (auto& [e, from, to] : fix) { fi->edges[e].pc = start[to]; for (PHINode& P : to->phis()) fi->edges[e].phis.push_back({slot[&P], opnd(P.getIncomingValueForBlock(from))}); }
  return fi;
}
static inline const Val& R(Frame& f, int o) { return o >= 0 ? f.regs[o] : f.fn->consts[-o - 1]; }
static void freeAllocas(Frame& f);
static void takeEdge(Frame& f, int e) { Edge& ed = f.fn->edges[e]; if (!ed.phis.empty()) { Val tmp[64]; std::vector<Val> big; size_t n = ed.phis.size(); Val* t = tmp; if (n > 64) { big.resize(n); t = big.data(); } for (size_t i = 0; i < n; i++) t[i] = R(f, ed.phis[i].second); for (size_t i = 0; i < n; i++) f.regs[ed.phis[i].first] = t[i]; } f.pc = ed.pc; }
// ---- C++ exceptions: typeinfo matching, handler search and stack unwinding (invoke / landingpad / resume) ----
static FnInfo* throwing = nullptr;
static bool excMatches(Constant* thrown, Constant* want) { // does a handler for `want` catch `thrown`?
  if (isa<ConstantPointerNull>(want)) return true; if (!thrown) { std::string w = want->getName().str(); return w == "_ZTISt9exception" || w == "_ZTISt11logic_error" || w == "_ZTISt12out_of_range" || w == "_ZTISt12length_error" || w == "_ZTISt9bad_alloc" || w == "_ZTISt13runtime_error"; }
  if (thrown == want) return true; std::string t = thrown->getName().str(), w = want->getName().str(); if (t == w) return true;
  static const std::map<std::string, std::string> base = {{"_ZTISt13runtime_error", "_ZTISt9exception"}, {"_ZTISt11logic_error", "_ZTISt9exception"}, {"_ZTISt9bad_alloc", "_ZTISt9exception"}, {"_ZTISt12out_of_range", "_ZTISt11logic_error"}, {"_ZTISt12length_error", "_ZTISt11logic_error"}, {"_ZTISt16invalid_argument", "_ZTISt11logic_error"}, {"_ZTISt12domain_error", "_ZTISt11logic_error"}, {"_ZTISt11range_error", "_ZTISt13runtime_error"}, {"_ZTISt14overflow_error", "_ZTISt13runtime_error"}, {"_ZTISt15underflow_error", "_ZTISt13runtime_error"}};
  for (auto it = base.find(t); it != base.end(); it = base.find(it->second)) if (it->second == w) return true;
  if (auto* gv = dyn_cast<GlobalVariable>(thrown)) if (gv->hasInitializer()) if (auto* cs = dyn_cast<ConstantStruct>(gv->getInitializer())) for (unsigned i = 2; i < cs->getNumOperands(); i++) if (cs->getOperand(i)->getType()->isPointerTy()) if (auto* b = dyn_cast<GlobalVariable>(cs->getOperand(i)->stripPointerCasts())) if (excMatches(b, want)) return true;
  return false; }
static std::map<Constant*, int> typeIds; static int typeIdFor(Constant* c) { c = cast<Constant>(c->stripPointerCasts()); std::string n = c->getName().str(); for (auto& t : typeIds) if (t.first->getName().str() == n && isa<ConstantPointerNull>(t.first) == isa<ConstantPointerNull>(c)) return t.second; int id = (int)typeIds.size() + 1; typeIds[c] = id; return id; }
// what would this landing pad do with the pending exception: 0 nothing, 1 cleanup, 2 catch (selector in *sel)
static int padKind(Frame& f, CallI& c, Thread& T, int* sel) { *sel = 0; if (c.unwindEdge < 0) return 0; const I_& pi = f.fn->code[f.pc - 1]; auto* LP = cast<InvokeInst>(pi.inst)->getLandingPadInst();
  for (unsigned i = 0; i < LP->getNumClauses(); i++) { if (LP->isFilter(i)) { giveup("exception filter"); } Constant* w = cast<Constant>(LP->getClause(i)->stripPointerCasts()); if (excMatches(T.excTy, w)) { *sel = typeIdFor(w); return 2; } } return LP->isCleanup() ? 1 : 0; }
static CallI* pendingCall(Frame& f) { const I_& pi = f.fn->code[f.pc - 1]; if (pi.opc != Instruction::Call && pi.opc != Instruction::Invoke) return nullptr; return &f.fn->calls[pi.aux]; }
static void findHandler() { Thread& T = S->th[S->cur]; for (size_t i = T.st.size(); i-- > 0;) { Frame& f = *T.st[i].p; CallI* c = pendingCall(f); int sel; if (c && padKind(f, *c, T, &sel) == 2) return; }
  violation("exception", "uncaught exception: " + demangle_(throwing->name)); }
static void unwind() { auto& st = S->th[S->cur].st; while (!st.empty()) { Frame& f = topW(); Thread& T = S->th[S->cur]; CallI* c = pendingCall(f); int sel; int k = c ? padKind(f, *c, T, &sel) : 0; if (k) { T.excSel = sel; takeEdge(f, c->unwindEdge); return; } freeAllocas(f); st.pop_back(); }
  violation("exception", "uncaught exception"); }
static void setDst(Frame& f, int dst, const Val& v) { if (dst >= 0) f.regs[dst] = v; }
static Val mkAgg(const std::vector<Val>& vs) { Node* a = new Node(); memset((void*)a, 0, sizeof *a); a->op = O_AGG; a->vs = &E.emptySet; a->agg = new std::vector<Val>(vs); Val r; r.n = a; r.w = 0; return r; }

// ------------------------------------------------------------------ threads
static bool threadEnabled(int t) { Thread& T = S->th[t]; if (T.status >= 2) return false; if (T.status == 0) return true; Val v = loadConc(T.blockAddr, 4, 32); u64 c = conc(v); return T.blockWant ? c != 0 : c == 0; }
static u64 newVarInput(const std::string& name, unsigned w, const Node** out) {
  // variables are shared between paths by position+name+width so that queries can be cached
  static std::map<std::tuple<size_t, std::string, unsigned>, const Node*> pool; auto key = std::make_tuple(name == "sched" ? S->nsSched++ : S->nsIn++, name, w);
  auto it = pool.find(key); const Node* v; if (it != pool.end()) v = it->second; else { v = E.var(name, w); pool[key] = v; }
  S->inputs.push_back({name, v}); *out = v; return 0;
}
// ------------------------------------------------------------------ state merging
// Two states reached by different interleavings that agree on live memory, live registers, thread positions, path condition
// (without the schedule variables) and remaining preemptions have the same continuations: only the first is continued.
static bool optMerge = true; static u64 nMerged = 0; static std::unordered_set<u64> visited; static std::unordered_set<const Node*> schedC;
static u64 objHash(Obj* o) { u64 h = o->size * 31 + o->kind; size_t i = 0, n = o->conc.size(); const uint8_t* d = o->conc.data(); for (; i + 8 <= n; i += 8) { u64 v; memcpy(&v, d + i, 8); h = (h ^ v) * 0x9E3779B97F4A7C15ULL; h ^= h >> 29; } for (; i < n; i++) { h = (h ^ d[i]) * 0x100000001b3ULL; h ^= h >> 29; }
  for (size_t j = 0; j < o->sym.size(); j++) if (o->sym[j]) h = mix64(h ^ mix64((u64)o->sym[j] + j)); return mix64(h); }
static void flushHash() { for (u64 id : S->dirty) { Obj* o = S->mem[id].p; if (!o || o->hv) continue; if (o->freed) continue; o->h = objHash(o); o->hv = true; S->memHash += mixId(id, o->h); } S->dirty.clear(); }
static void hashBegin() { if (S->hashOn || !optMerge) return; S->hashOn = true; u64 b = (S->mem.size() + 7) & ~7ull; for (int t = 0; t < 8; t++) S->nextId[t] = b + t; S->memHash = 0; S->dirty.clear();
  for (u64 id = 0; id < S->mem.size(); id++) { Obj* o = S->mem[id].p; if (!o || o->ro || o->kind == 3 || o->freed) continue; if (!o->hv) { o->h = objHash(o); o->hv = true; } S->memHash += mixId(id, o->h); } }
static void liveness(FnInfo* fi) {
  if (fi->liveDone) return; fi->liveDone = true; auto& L = fi->liveIn; bool ch = true;
  while (ch) { ch = false;
    for (auto bi = fi->F->end(); bi != fi->F->begin();) { --bi; BasicBlock* B = &*bi; std::set<Value*> live;
      for (BasicBlock* Sx : successors(B)) { for (Value* v : L[Sx]) live.insert(v); for (PHINode& P : Sx->phis()) { Value* v = P.getIncomingValueForBlock(B); if (fi->slot.count(v)) live.insert(v); } }
      for (auto ii = B->end(); ii != B->begin();) { --ii; Instruction* I = &*ii; live.erase(I); if (isa<PHINode>(I)) continue; for (Value* o : I->operands()) if (fi->slot.count(o)) live.insert(o); }
      auto& cur = L[B]; if (live.size() != cur.size()) { cur.swap(live); ch = true; } } } }
static const std::vector<int>& liveSlots(FnInfo* fi, Instruction* I, bool before) {
  static std::unordered_map<Instruction*, std::vector<int>> cache[2]; auto it = cache[before].find(I); if (it != cache[before].end()) return it->second;
  liveness(fi); BasicBlock* B = I->getParent(); std::set<Value*> live;
  for (BasicBlock* Sx : successors(B)) { for (Value* v : fi->liveIn[Sx]) live.insert(v); for (PHINode& P : Sx->phis()) { Value* v = P.getIncomingValueForBlock(B); if (fi->slot.count(v)) live.insert(v); } }
  for (auto ii = B->end(); ii != B->begin();) { --ii; Instruction* J = &*ii; if (J == I && !before) break; live.erase(J); if (isa<PHINode>(J)) continue; for (Value* o : J->operands()) if (fi->slot.count(o)) live.insert(o); if (J == I) break; }
  live.erase(before ? nullptr : (Value*)I); std::vector<int> r; for (Value* v : live) r.push_back(fi->slot[v]); std::sort(r.begin(), r.end()); return cache[before][I] = r; }
static u64 valHash(const Val& v) { return v.n ? mix64((u64)v.n + 3) : mix64(v.c * 2 + 1) + v.w; }
static u64 stateHash(bool curEnabled) {
  flushHash(); u64 h = S->memHash; h = mix64(h ^ (u64)S->cur * 7 ^ (u64)S->preempt << 20 ^ (u64)S->heapLive << 32 ^ (u64)S->nodead << 1 ^ (u64)curEnabled << 2);
  for (size_t t = 0; t < S->th.size(); t++) { Thread& T = S->th[t]; h = mix64(h ^ (t * 1000003 + T.status * 17 + T.passed * 5 + T.blockWant) ^ (T.status == 1 ? T.blockAddr : 0)); if (T.status == 2) continue;
    for (size_t k = 0; k < T.st.size(); k++) { Frame& f = *T.st[k].p; bool topF = k + 1 == T.st.size(); int ipc = topF ? f.pc : f.pc - 1; h = mix64(h ^ (u64)f.fn ^ (u64)f.pc << 40); if (ipc < 0 || ipc >= (int)f.fn->code.size()) { for (auto& r : f.regs) h = mix64(h ^ valHash(r)); continue; }
      Instruction* I = f.fn->code[ipc].inst; bool synth = !I; if (!I) { for (auto& r : f.regs) h = mix64(h ^ valHash(r)); } (void)synth;
      if (I) for (int sl : liveSlots(f.fn, I, topF)) h = mix64(h ^ valHash(f.regs[sl])); for (auto& v : f.varargs) h = mix64(h ^ valHash(v)); } }
  u64 p = 0; for (auto c : S->pc) if (!schedC.count(c)) p += mix64((u64)c); for (auto& w : S->watch) h = mix64(h ^ w.first ^ w.second << 50); return mix64(h ^ p); }
// true: an equivalent state has been continued already
static bool seenBefore(bool curEnabled) { if (!S->hashOn) return false; if (!visited.insert(stateHash(curEnabled)).second) { nMerged++; return true; } return false; }
// pick the next thread; free=true: not a preemption.  Returns after possibly switching S->cur.
static void schedule(bool curEnabled) {
  std::vector<int> en; for (int t = 0; t < (int)S->th.size(); t++) if (t == S->cur ? curEnabled : threadEnabled(t)) en.push_back(t);
  if (en.empty()) { bool all = true; int jn = -1; for (int t = 0; t < (int)S->th.size(); t++) { if (S->th[t].status == 3) jn = t; else if (S->th[t].status != 2) all = false; } if (all) return;
    if (S->nodead && jn >= 0) { for (int t = 0; t < (int)S->th.size(); t++) if (t != jn) S->th[t].status = 2; S->th[jn].status = 0; S->cur = jn; return; } violation("deadlock", "all remaining threads are blocked forever"); }
  if (en.size() == 1) { int t = en[0]; if (t != S->cur) { S->cur = t; } S->th[t].status = 0; S->th[t].passed = true; return; }
  if (S->quiet) { int t = S->cur; if (!curEnabled) { t = en[0]; for (size_t i = en.size(); i-- > 0;) if (en[i] > S->cur) t = en[i]; } S->cur = t; S->th[t].status = 0; S->th[t].passed = true; return; }
  if (curEnabled && optPreempt >= 0 && S->preempt >= optPreempt) { S->th[S->cur].passed = true; return; }
  if (seenBefore(curEnabled)) throw PathEnd();
  const Node* v; newVarInput("sched", 8, &v); nSched++;
  int prefer = 0; for (size_t i = 0; i < en.size(); i++) if (en[i] == S->cur) prefer = i;
  auto apply = [&](State* st, size_t i) { const Node* sc = E.mk(O_EQ, 1, v, E.K(i, 8)); schedC.insert(sc); addPc(st, sc); auto nm = std::make_shared<std::vector<u64>>(*st->model); u64 id = (u64)v->k; if (id >= nm->size()) nm->resize(id + 1); (*nm)[id] = i; st->model = nm;
    if (curEnabled && en[i] != st->cur) st->preempt++; st->cur = en[i]; st->th[en[i]].status = 0; st->th[en[i]].passed = true; };
  for (size_t i = 0; i < en.size(); i++) if ((int)i != prefer) { State* o = forkState(); apply(o, i); work.push_back(o); }
  apply(S, prefer);
}

// ------------------------------------------------------------------ calls
static std::map<std::string, int> H;
enum HId { h_malloc = 0, h_calloc, h_realloc, h_free, h_new, h_newa, h_delete, h_deletea, h_memcpy, h_memmove, h_memset, h_memcmp, h_abort, h_exit, h_assertfail, h_throw, h_nop0, h_purevirt,
  h_sx_bytes, h_sx_range, h_sx_choose, h_sx_u64, h_sx_assume, h_sx_assert, h_sx_reach, h_sx_note, h_sx_fail, h_sched, h_access, h_tcreate, h_block, h_tid, h_joinall, h_heaplive, h_watch, h_conc, h_issym, h_arg, h_strlen, h_cxaguard, h_atexit, h_dbg, h_bswaplike, h_valid, h_native, h_yieldto, h_quiet, h_fabs, h_pow, h_nodead, h_endpath, h_begincatch, h_endcatch, h_setjmp, h_longjmp, h_fmtg, h_fdecode, h_hbacq, h_hbrel, h_race, h_racec, h_racectx };
static int handlerFor(const std::string& n) {
  if (H.empty()) {
    H = {{"malloc", h_malloc}, {"calloc", h_calloc}, {"realloc", h_realloc}, {"free", h_free}, {"_Znwm", h_new}, {"_Znam", h_newa}, {"_ZnwmRKSt9nothrow_t", h_new}, {"_ZnamRKSt9nothrow_t", h_newa},
      {"_ZnwmSt11align_val_t", h_new}, {"_ZdlPvSt11align_val_t", h_delete}, {"_ZdlPvmSt11align_val_t", h_delete},
      {"_ZdlPv", h_delete}, {"_ZdlPvm", h_delete}, {"_ZdaPv", h_deletea}, {"_ZdaPvm", h_deletea}, {"memcpy", h_memcpy}, {"memmove", h_memmove}, {"memset", h_memset}, {"memcmp", h_memcmp}, {"bcmp", h_memcmp},
      {"abort", h_abort}, {"_ZSt9terminatev", h_abort}, {"exit", h_exit}, {"_exit", h_exit}, {"__assert_fail", h_assertfail}, {"_ZSt21__glibcxx_assert_failPKciS0_S0_", h_assertfail}, {"__cxa_throw", h_throw}, {"__cxa_rethrow", h_throw}, {"__cxa_pure_virtual", h_purevirt}, {"__cxa_deleted_virtual", h_purevirt},
      {"_ZSt20__throw_length_errorPKc", h_throw}, {"_ZSt17__throw_bad_allocv", h_throw}, {"_ZSt28__throw_bad_array_new_lengthv", h_throw}, {"_ZSt20__throw_out_of_rangePKc", h_throw}, {"_ZSt24__throw_out_of_range_fmtPKcz", h_throw}, {"_ZSt19__throw_logic_errorPKc", h_throw}, {"_ZSt24__throw_invalid_argumentPKc", h_throw}, {"_ZSt25__throw_bad_function_callv", h_throw}, {"_ZSt16__throw_bad_castv", h_throw}, {"_ZSt20__throw_system_errori", h_throw}, {"_ZSt19__throw_range_errorPKc", h_throw}, {"_ZSt21__throw_runtime_errorPKc", h_throw},
      {"sx_bytes", h_sx_bytes}, {"sx_range", h_sx_range}, {"sx_u64", h_sx_u64}, {"sx_assume", h_sx_assume}, {"sx_assert", h_sx_assert}, {"sx_reach", h_sx_reach}, {"sx_note", h_sx_note}, {"sx_fail", h_sx_fail},
      {"sx_sched_point", h_sched}, {"sx_yield", h_yieldto}, {"sx_quiet", h_quiet}, {"sx_access", h_access}, {"sx_thread_create", h_tcreate}, {"sx_block_on", h_block}, {"sx_tid", h_tid}, {"sx_join_all", h_joinall}, {"sx_heap_live", h_heaplive}, {"sx_watch", h_watch}, {"sx_concretize", h_conc}, {"sx_is_symbolic", h_issym}, {"sx_arg", h_arg}, {"sx_native", h_native}, {"sx_valid", h_valid}, {"sx_end_path", h_endpath}, {"sx_allow_deadlock", h_nodead}, {"__cxa_begin_catch", h_begincatch}, {"__cxa_end_catch", h_endcatch}, {"_setjmp", h_setjmp}, {"setjmp", h_setjmp}, {"__sigsetjmp", h_setjmp}, {"longjmp", h_longjmp}, {"_longjmp", h_longjmp}, {"sx_fmtg", h_fmtg}, {"sx_hb_acq", h_hbacq}, {"sx_hb_rel", h_hbrel}, {"sx_race", h_race}, {"sx_race_c", h_racec}, {"sx_race_ctx", h_racectx},
      {"__cxa_atexit", h_atexit}, {"_ZNSt8ios_base4InitC1Ev", h_nop0}, {"_ZNSt8ios_base4InitD1Ev", h_nop0}, {"fflush", h_nop0}, {"fprintf", h_nop0}, {"printf", h_nop0}, {"puts", h_nop0}, {"putchar", h_nop0}, {"fputs", h_nop0}, {"fwrite", h_nop0}, {"sx_dbg", h_dbg}};
  }
  auto it = H.find(n); return it == H.end() ? -1 : it->second;
}
static std::string cstr(u64 a) { std::string r; for (int i = 0; i < 400; i++) { Val b = byteAt(a + i); if (!b.isC()) { r += '?'; continue; } if (!b.c) break; r += (char)b.c; } return r; }
static void copyMem(u64 d, u64 s, u64 n) { if (!n) return; u64 sid = checkAcc(s, n, false); u64 did = checkAcc(d, n, true); Obj* so = S->mem[sid].p; ORef keep = S->mem[sid]; (void)so; Obj* D = wobj(did); Obj* Sx = keep.p; u64 so_ = s - objBase(sid), do_ = d - objBase(did);
  if (Sx->sym.empty() && D->sym.empty()) { memmove(&D->conc[do_], &Sx->conc[so_], n); return; }
  std::vector<uint8_t> cb(Sx->conc.begin() + so_, Sx->conc.begin() + so_ + n); std::vector<const Node*> sb(n, nullptr); if (!Sx->sym.empty()) sb.assign(Sx->sym.begin() + so_, Sx->sym.begin() + so_ + n);
  if (D->sym.empty()) D->sym.assign(D->size, nullptr); for (u64 i = 0; i < n; i++) { D->conc[do_ + i] = cb[i]; D->sym[do_ + i] = sb[i]; } }
static u64 memSize(const Val& v) { return conc(v); }
static Race& raceW() { if (!S->race) S->race = std::make_shared<Race>(); else if (S->race.use_count() > 1) S->race = std::make_shared<Race>(*S->race); return *S->race; }
static bool cfgRace = false;
static void doFree(u64 p, const char* what, uint8_t fam) { if (!p) return; i64 id = addrId(p); if (id < 0 || id >= (i64)S->mem.size() || !S->mem[id].p || S->mem[id].p->kind != 1 || p != objBase(id)) violation("memory", std::string(what) + " of a pointer that is not a heap block start"); if (S->mem[id].p->freed) violation("memory", "double free"); Obj* o = wobj(id); o->freed = true; o->conc.clear(); o->conc.shrink_to_fit(); o->sym.clear(); S->heapLive--; if (S->race && S->th.size() > 1) raceW().freed(p, o->size); }
static void pushFrame(int t, FnInfo* fi, const std::vector<Val>& args, int retDst, int normalEdge);
static u64 toPtr(const Val& v) { Val p = resolveKnown(v); if (p.isC()) return p.c; return conc(p); }

static bool doHandler(FnInfo* fi, std::vector<Val>& a, Frame& f, Val& ret, unsigned rw) { // returns true if ret set normally
  ret = Val(0, rw ? rw : 64);
  switch (fi->handler) {
    case h_malloc: case h_new: case h_newa: { u64 n = memSize(a[0]); if (n > (1ull << 26)) { if (n > (1ull << 40)) { if (fi->handler == h_malloc) { ret = Val(0, 64); return true; } violation("exception", "allocation of an absurd size (std::bad_alloc)"); } if (n > (200ull << 20)) giveup("huge allocation"); } ret = Val(allocObj(n, 1, 0xCD), 64); S->heapLive++; return true; }
    case h_calloc: { u64 n = memSize(a[0]) * memSize(a[1]); if (n > (200ull << 20)) { ret = Val(0, 64); return true; } ret = Val(allocObj(n, 1, 0), 64); S->heapLive++; return true; }
    case h_realloc: { u64 p = toPtr(a[0]); u64 n = memSize(a[1]); if (n > (200ull << 20)) giveup("huge realloc"); u64 q = allocObj(n, 1, 0xCD); S->heapLive++; if (p) { i64 id = addrId(p); if (id < 0 || id >= (i64)S->mem.size() || S->mem[id].p->kind != 1 || S->mem[id].p->freed) violation("memory", "realloc of invalid pointer"); copyMem(q, p, std::min<u64>(n, S->mem[id].p->size)); doFree(p, "realloc", 0); } ret = Val(q, 64); return true; }
    case h_free: doFree(toPtr(a[0]), "free", 0); return true;
    case h_delete: case h_deletea: doFree(toPtr(a[0]), "delete", 1); return true;
    case h_memcpy: case h_memmove: { u64 n = memSize(a[2]); u64 d = toPtr(a[0]), s = toPtr(a[1]); copyMem(d, s, n); ret = Val(d, 64); return true; }
    case h_memset: { u64 n = memSize(a[2]); u64 d = toPtr(a[0]); if (n) { u64 id = checkAcc(d, n, true); Obj* o = wobj(id); Val b = E.extract(a[1], 0, 8); for (u64 i = 0; i < n; i++) putByte(o, d - objBase(id) + i, b); } ret = Val(d, 64); return true; }
    case h_memcmp: { u64 n = memSize(a[2]); u64 p = toPtr(a[0]), q = toPtr(a[1]); if (n) { checkAcc(p, n, false); checkAcc(q, n, false); } Val r(0, 32); for (i64 i = (i64)n - 1; i >= 0; i--) { Val x = byteAt(p + i), y = byteAt(q + i); Val eq = E.bin(O_EQ, x, y, 1); Val lt = E.bin(O_ULT, x, y, 1); r = E.ite(eq, r, E.ite(lt, Val(0xffffffffu, 32), Val(1, 32))); } ret = r; return true; }
    case h_fmtg: { u64 bits = conc(a[0]); double d; memcpy(&d, &bits, 8); char b[64]; int n = snprintf(b, sizeof b, "%.*g", (int)(int32_t)conc(a[1]), d); u64 o = toPtr(a[2]); for (int i = 0; i <= n; i++) store(Val(o + i, 64), Val((u64)(uint8_t)b[i], 8), 1); ret = Val((u64)n, rw); return true; }
    case h_abort: violation("abort", "abort() reached");
    case h_exit: violation("abort", "exit() reached");
    case h_assertfail: violation("abort", "assertion failed: " + cstr(toPtr(a[0])));
    case h_throw: violation("exception", "uncaught exception: " + demangle_(fi->name));
    case h_purevirt: violation("abort", "pure virtual call");
    case h_nop0: case h_atexit: return true;
    case h_dbg: fprintf(stderr, "DBG %s", cstr(toPtr(a[0])).c_str()); { Val v = a[1]; if (v.isC()) fprintf(stderr, " %lld\n", (long long)v.c); else fprintf(stderr, " <symbolic %lld>\n", (long long)E.eval(v.n, *S->model)); } return true;
    case h_sx_bytes: { u64 p = toPtr(a[0]), n = memSize(a[1]); std::string nm = cstr(toPtr(a[2])); if (n) { u64 id = checkAcc(p, n, true); Obj* o = wobj(id); for (u64 i = 0; i < n; i++) { const Node* v; newVarInput(nm, 8, &v); putByte(o, p - objBase(id) + i, E.val(v)); } } return true; }
    case h_sx_range: { i64 lo = (i64)conc(a[0]), hi = (i64)conc(a[1]); std::string nm = cstr(toPtr(a[2])); if (lo > hi) { throw PathEnd(); } u64 span = (u64)hi - (u64)lo; if (span == 0) { ret = Val((u64)lo, 64); return true; } unsigned w = 1; while (w < 64 && (span >> w)) w++; 
      const Node* v; newVarInput(nm, w, &v); if (span != (w >= 64 ? ~0ull : ((1ull << w) - 1))) { addPc(S, E.mk(O_ULE, 1, v, E.K(span, w))); u64 id = (u64)v->k; if (id < S->model->size() && (*S->model)[id] > span) { auto nm2 = std::make_shared<std::vector<u64>>(*S->model); (*nm2)[id] = 0; S->model = nm2; } }
      ret = E.bin(O_ADD, E.zext(E.val(v), 64), Val((u64)lo, 64), 64); return true; }
    case h_sx_u64: { const Node* v; newVarInput(cstr(toPtr(a[0])), 64, &v); ret = E.val(v); return true; }
    case h_sx_assume: { Val c = a[0]; if (c.w > 1) c = E.notv(E.bin(O_EQ, c, Val(0, c.w), 1)); if (c.isC()) { if (!c.c) { nAssumeKill++; throw PathEnd(); } return true; } std::shared_ptr<std::vector<u64>> m; int r = feasible(c.n, m); if (r == -1) incomplete.insert("solver unknown in assume"); if (r != 1) { nAssumeKill++; throw PathEnd(); } addPc(S, c.n); S->model = m; return true; }
    case h_sx_assert: { nAsserts++; Val c = a[0]; if (c.w > 1) c = E.notv(E.bin(O_EQ, c, Val(0, c.w), 1)); std::string msg = cstr(toPtr(a[1])); if (c.isC()) { if (!c.c) violation("assert", msg); return true; } nAssertQ++; std::shared_ptr<std::vector<u64>> m; const Node* nc = E.mkNot(c.n); int r = feasible(nc, m); if (r == -1) incomplete.insert("solver unknown in assert " + msg); if (r == 1) { auto om = S->model; recordViol("assert", msg, *m); r = feasible(c.n, m); if (r != 1) throw PathEnd(); S->model = m; addPc(S, c.n); } return true; }
    case h_sx_fail: violation("assert", cstr(toPtr(a[0])));
    case h_sx_reach: { std::string l = cstr(toPtr(a[0])); if (reach[l]++ == 0) {} return true; }
    case h_sx_note: { S->notes.push_back({(int)conc(a[0]), a[1]}); return true; }
    case h_tcreate: { u64 fn = toPtr(a[0]); i64 id = addrId(fn); if (id < 0 || id >= (i64)fnByObj.size() || !fnByObj[id]) giveup("thread function"); hashBegin(); Thread T; S->th.push_back(T); int t = S->th.size() - 1; if (cfgRace) { raceW().grow(S->cur); raceW().create(S->cur, t); } pushFrame(t, compile(fnByObj[id]->F), {a[1]}, -1, -1); ret = Val(t, 32); return true; }
    case h_hbacq: case h_hbrel: if (cfgRace && S->th.size() > 1 && !S->quiet) { u64 p = toPtr(a[0]); if (fi->handler == h_hbacq) raceW().acq(S->cur, p); else raceW().rel(S->cur, p); } return true;
    case h_racectx: { ret = Val(0, 32); if (cfgRace) { Race& r = raceW(); r.grow(S->cur); ret = Val(r.ctx[S->cur], 32); r.ctx[S->cur] = (int)conc(a[0]); } return true; }
    case h_race: case h_racec: if (cfgRace && S->th.size() > 1 && !S->quiet) { if (fi->handler == h_racec && !(S->race && S->cur < (int)S->race->ctx.size() && S->race->ctx[S->cur])) return true; u64 p = toPtr(a[0]); i64 id = addrId(p); if (id < 0 || id >= (i64)S->mem.size() || !S->mem[id].p || S->mem[id].p->kind == 2 || S->mem[id].p->ro) return true; if (raceW().access(S->cur, p, conc(a[1]))) violation("race", "unordered accesses to one container or smart pointer"); } return true;
    case h_tid: ret = Val(S->cur, 32); return true;
    case h_heaplive: ret = Val((u64)S->heapLive, 64); return true;
    case h_watch: S->watch.push_back({toPtr(a[0]), conc(a[1])}); return true;
    case h_conc: ret = Val(conc(a[0]), 64); return true;
    case h_issym: ret = Val(!a[0].isC(), 32); return true;
    case h_arg: { u64 i = conc(a[0]); ret = Val(i < optArgs.size() ? (u64)(i64)optArgs[i] : 0, 32); return true; }
    case h_native: ret = Val(0, 32); return true;
    case h_valid: { u64 p = toPtr(a[0]); u64 n = conc(a[1]); i64 id = addrId(p); bool ok = id >= 0 && id < (i64)S->mem.size() && S->mem[id].p && !S->mem[id].p->freed && p >= objBase(id) && p - objBase(id) <= S->mem[id].p->size && n <= S->mem[id].p->size - (p - objBase(id)); ret = Val(ok, 32); return true; }
    case h_endpath: throw PathEnd();
  }
  giveup("unhandled builtin " + fi->name);
}
static void pushFrame(int t, FnInfo* fi, const std::vector<Val>& args, int retDst, int normalEdge) {
  if (S->th[t].st.size() > 400) violation("hang", "call stack deeper than 400 frames");
  Frame* nf = new Frame(); nf->fn = fi; nf->pc = 0; nf->retDst = retDst; nf->normalEdge = normalEdge; nf->regs.resize(fi->nslots);
  for (size_t i = 0; i < args.size(); i++) { if (i < fi->argSlots.size()) nf->regs[fi->argSlots[i]] = args[i]; else nf->varargs.push_back(args[i]); }
  S->th[t].st.push_back(FRef(nf));
  if (covSeen.insert(fi).second) if (DISubprogram* sp = fi->F->getSubprogram()) { (void)sp; }
}
static void freeAllocas(Frame& f) { auto& fs = S->freeStack[S->hashOn ? 1 + (S->cur & 7) : 0]; for (u64 id : f.allocas) { Obj* o = S->mem[id].p; if (S->hashOn && o && o->hv) S->memHash -= mixId(id, o->h); S->mem[id] = ORef(); fs.push_back(id); } f.allocas.clear(); }

static Val intrinsic(IntrinsicInst* II, std::vector<Val>& a, Frame& f, unsigned w, bool& handled) {
  handled = true;
  switch (II->getIntrinsicID()) {
    case Intrinsic::memcpy: case Intrinsic::memcpy_inline: case Intrinsic::memmove: { u64 n = memSize(a[2]); if (!n) return Val(); u64 d = toPtr(a[0]), s = toPtr(a[1]); copyMem(d, s, n); return Val(); }
    case Intrinsic::memset: { u64 n = memSize(a[2]); if (!n) return Val(); u64 d = toPtr(a[0]); u64 id = checkAcc(d, n, true); Obj* o = wobj(id); for (u64 i = 0; i < n; i++) putByte(o, d - objBase(id) + i, a[1]); return Val(); }
    case Intrinsic::expect: case Intrinsic::expect_with_probability: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::ssa_copy: return a[0];
    case Intrinsic::lifetime_end: { if (S->hashOn && a[1].isC()) { i64 id = addrId(a[1].c); if (id >= 0 && id < (i64)S->mem.size() && S->mem[id].p && S->mem[id].p->kind == 2 && a[1].c == objBase(id)) { Obj* o = wobj(id); std::fill(o->conc.begin(), o->conc.end(), 0xCD); o->sym.clear(); } } return Val(); }
    case Intrinsic::is_constant: return Val(0, 1);
    case Intrinsic::eh_typeid_for: return Val((u64)typeIdFor(cast<Constant>(II->getArgOperand(0)->stripPointerCasts())), 32);
    case Intrinsic::objectsize: return Val(~0ull, w);
    case Intrinsic::trap: case Intrinsic::ubsantrap: violation("abort", "trap");
    case Intrinsic::stacksave: return Val(0, 64); case Intrinsic::stackrestore: return Val();
    case Intrinsic::umin: return E.ite(E.bin(O_ULT, a[0], a[1], 1), a[0], a[1]);
    case Intrinsic::umax: return E.ite(E.bin(O_ULT, a[0], a[1], 1), a[1], a[0]);
    case Intrinsic::smin: return E.ite(E.bin(O_SLT, a[0], a[1], 1), a[0], a[1]);
    case Intrinsic::smax: return E.ite(E.bin(O_SLT, a[0], a[1], 1), a[1], a[0]);
    case Intrinsic::abs: return E.ite(E.bin(O_SLT, a[0], Val(0, w), 1), E.bin(O_SUB, Val(0, w), a[0], w), a[0]);
    case Intrinsic::usub_sat: return E.ite(E.bin(O_ULT, a[0], a[1], 1), Val(0, w), E.bin(O_SUB, a[0], a[1], w));
    case Intrinsic::uadd_sat: { Val s = E.bin(O_ADD, a[0], a[1], w); return E.ite(E.bin(O_ULT, s, a[0], 1), Val(~0ull, w), s); }
    case Intrinsic::bswap: { const Node* n = E.node(a[0]); const Node* r = nullptr; for (unsigned i = 0; i < w / 8; i++) { const Node* b = E.mkExtract(n, 8 * i, 8); r = r ? E.mkConcat(r, b) : b; } return E.val(r); }
    case Intrinsic::fshl: case Intrinsic::fshr: { bool l = II->getIntrinsicID() == Intrinsic::fshl; u64 s = conc(a[2]) % w; const Node* cat = E.mkConcat(E.node(a[0]), E.node(a[1])); if (l) return E.val(E.mkExtract(cat, w - s, w)); return E.val(E.mkExtract(cat, s, w)); }
    case Intrinsic::ctpop: { if (a[0].isC()) return Val(__builtin_popcountll(a[0].c), w); const Node* r = E.K(0, w); for (unsigned i = 0; i < w; i++) r = E.mk(O_ADD, w, r, E.mkZext(E.mkExtract(a[0].n, i, 1), w)); return E.val(r); }
    case Intrinsic::ctlz: { if (a[0].isC()) { u64 v = a[0].c; unsigned k = 0; for (int i = w - 1; i >= 0 && !((v >> i) & 1); i--) k++; return Val(k, w); } const Node* r = E.K(w, w); for (unsigned i = 0; i < w; i++) r = E.mk(O_ITE, w, E.mkExtract(a[0].n, i, 1), E.K(w - 1 - i, w), r); return E.val(r); }
    case Intrinsic::cttz: { if (a[0].isC()) { u64 v = a[0].c; unsigned k = 0; for (unsigned i = 0; i < w && !((v >> i) & 1); i++) k++; return Val(k, w); } const Node* r = E.K(w, w); for (int i = w - 1; i >= 0; i--) r = E.mk(O_ITE, w, E.mkExtract(a[0].n, i, 1), E.K(i, w), r); return E.val(r); }
    case Intrinsic::uadd_with_overflow: { unsigned v = a[0].w; Val s = E.bin(O_ADD, a[0], a[1], v); return mkAgg({s, E.bin(O_ULT, s, a[0], 1)}); }
    case Intrinsic::usub_with_overflow: { unsigned v = a[0].w; return mkAgg({E.bin(O_SUB, a[0], a[1], v), E.bin(O_ULT, a[0], a[1], 1)}); }
    case Intrinsic::umul_with_overflow: { unsigned v = a[0].w; const Node* p = E.mk(O_MUL, 2 * v, E.mkZext(E.node(a[0]), 2 * v), E.mkZext(E.node(a[1]), 2 * v)); return mkAgg({E.val(E.mkExtract(p, 0, v)), E.notv(E.val(E.mk(O_EQ, 1, E.mkExtract(p, v, v), E.K(0, v))))}); }
    case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::smul_with_overflow: { unsigned v = a[0].w; auto id = II->getIntrinsicID(); Op op = id == Intrinsic::sadd_with_overflow ? O_ADD : id == Intrinsic::ssub_with_overflow ? O_SUB : O_MUL; unsigned ww = op == O_MUL ? 2 * v : v + 1; const Node* p = E.mk(op, ww, E.mkSext(E.node(a[0]), ww), E.mkSext(E.node(a[1]), ww)); const Node* lo = E.mkExtract(p, 0, v); return mkAgg({E.val(lo), E.notv(E.val(E.mk(O_EQ, 1, E.mkSext(lo, ww), p)))}); }
    case Intrinsic::vastart: { u64 n = std::max<size_t>(f.varargs.size(), 1); u64 blk = allocObj(n * 8, 2, 0); f.allocas.push_back(addrId(blk)); for (size_t i = 0; i < f.varargs.size(); i++) { Val v = f.varargs[i]; storeConc(blk + 8 * i, v.w < 64 ? E.zext(v, 64) : v, 8); } u64 p = toPtr(a[0]); storeConc(p, Val(48, 32), 4); storeConc(p + 4, Val(304, 32), 4); storeConc(p + 8, Val(blk, 64), 8); storeConc(p + 16, Val(0, 64), 8); return Val(); }
    case Intrinsic::vaend: return Val();
    case Intrinsic::vacopy: copyMem(toPtr(a[0]), toPtr(a[1]), 24); return Val();

    case Intrinsic::fabs: { if (a[0].isC()) return Val(a[0].c & ~(1ull << (w - 1)), w); return E.bin(O_AND, a[0], Val(~(1ull << (w - 1)), w), w); }
    case Intrinsic::fmuladd: { Val p = E.bin(O_FMUL, a[0], a[1], w); return E.bin(O_FADD, p, a[2], w); }
    case Intrinsic::threadlocal_address: return a[0];
    case Intrinsic::ptrmask: return E.bin(O_AND, a[0], a[1], 64);
    case Intrinsic::load_relative: giveup("relative lookup table (compile with -fno-pic)"); return Val();
    default: handled = false; return Val();
  }
}

static void coverInst(Instruction* I) {
  if (!covSeen.insert(I).second) return;
  const DILocation* l = I->getDebugLoc(); if (!l) return;
  for (; l; l = l->getInlinedAt()) { std::string f = l->getFilename().str(); if (f.compare(0, optRepo.size(), optRepo) == 0 && l->getLine()) { cover[f.substr(optRepo.size() + 1)].insert(l->getLine()); if (auto* sp = l->getScope()->getSubprogram()) { std::string n = sp->getLinkageName().str(); if (n.empty()) n = sp->getName().str(); fcover.insert(n); } } }
}

// address-space-free integer compare
static Val icmp(CmpInst::Predicate p, const Val& a, const Val& b) {
  switch (p) { case CmpInst::ICMP_EQ: return E.bin(O_EQ, a, b, 1); case CmpInst::ICMP_NE: return E.notv(E.bin(O_EQ, a, b, 1)); case CmpInst::ICMP_ULT: return E.bin(O_ULT, a, b, 1); case CmpInst::ICMP_ULE: return E.bin(O_ULE, a, b, 1); case CmpInst::ICMP_UGT: return E.bin(O_ULT, b, a, 1); case CmpInst::ICMP_UGE: return E.bin(O_ULE, b, a, 1); case CmpInst::ICMP_SLT: return E.bin(O_SLT, a, b, 1); case CmpInst::ICMP_SLE: return E.bin(O_SLE, a, b, 1); case CmpInst::ICMP_SGT: return E.bin(O_SLT, b, a, 1); case CmpInst::ICMP_SGE: return E.bin(O_SLE, b, a, 1); default: giveup("icmp"); } }
static Val fcmp(CmpInst::Predicate p, const Val& a, const Val& b) {
  auto un = [&]() { return E.bin(O_FUNO, a, b, 1); }; auto Or = [&](Val x, Val y) { return E.bin(O_OR, x, y, 1); };
  switch (p) { case CmpInst::FCMP_FALSE: return Val(0, 1); case CmpInst::FCMP_TRUE: return Val(1, 1); case CmpInst::FCMP_OEQ: return E.bin(O_FEQ, a, b, 1); case CmpInst::FCMP_OLT: return E.bin(O_FLT, a, b, 1); case CmpInst::FCMP_OLE: return E.bin(O_FLE, a, b, 1); case CmpInst::FCMP_OGT: return E.bin(O_FLT, b, a, 1); case CmpInst::FCMP_OGE: return E.bin(O_FLE, b, a, 1); case CmpInst::FCMP_UNO: return un(); case CmpInst::FCMP_ORD: return E.notv(un());
    case CmpInst::FCMP_ONE: return Or(E.bin(O_FLT, a, b, 1), E.bin(O_FLT, b, a, 1)); case CmpInst::FCMP_UEQ: return Or(un(), E.bin(O_FEQ, a, b, 1)); case CmpInst::FCMP_UNE: return E.notv(E.bin(O_FEQ, a, b, 1)); case CmpInst::FCMP_ULT: return Or(un(), E.bin(O_FLT, a, b, 1)); case CmpInst::FCMP_ULE: return Or(un(), E.bin(O_FLE, a, b, 1)); case CmpInst::FCMP_UGT: return Or(un(), E.bin(O_FLT, b, a, 1)); case CmpInst::FCMP_UGE: return Or(un(), E.bin(O_FLE, b, a, 1)); default: giveup("fcmp"); } }

static Val loadTyped(const Val& p, Type* T) {
  if (T->isStructTy()) { const StructLayout* SL = DL->getStructLayout(cast<StructType>(T)); std::vector<Val> vs; for (unsigned i = 0; i < T->getStructNumElements(); i++) vs.push_back(loadTyped(E.bin(O_ADD, p, Val(SL->getElementOffset(i), 64), 64), T->getStructElementType(i))); return mkAgg(vs); }
  if (T->isArrayTy()) { std::vector<Val> vs; u64 es = DL->getTypeAllocSize(T->getArrayElementType()); for (unsigned i = 0; i < T->getArrayNumElements(); i++) vs.push_back(loadTyped(E.bin(O_ADD, p, Val(i * es, 64), 64), T->getArrayElementType())); return mkAgg(vs); }
  if (auto* VT = dyn_cast<FixedVectorType>(T)) { std::vector<Val> vs; u64 es = DL->getTypeStoreSize(VT->getElementType()); for (unsigned i = 0; i < VT->getNumElements(); i++) vs.push_back(loadTyped(E.bin(O_ADD, p, Val(i * es, 64), 64), VT->getElementType())); return mkAgg(vs); }
  return load(p, DL->getTypeStoreSize(T), tyBits(T)); }
static void storeTyped(const Val& p, const Val& v, Type* T) {
  if (T->isStructTy()) { const StructLayout* SL = DL->getStructLayout(cast<StructType>(T)); for (unsigned i = 0; i < T->getStructNumElements(); i++) storeTyped(E.bin(O_ADD, p, Val(SL->getElementOffset(i), 64), 64), (*v.n->agg)[i], T->getStructElementType(i)); return; }
  if (T->isArrayTy()) { u64 es = DL->getTypeAllocSize(T->getArrayElementType()); for (unsigned i = 0; i < T->getArrayNumElements(); i++) storeTyped(E.bin(O_ADD, p, Val(i * es, 64), 64), (*v.n->agg)[i], T->getArrayElementType()); return; }
  if (auto* VT = dyn_cast<FixedVectorType>(T)) { u64 es = DL->getTypeStoreSize(VT->getElementType()); for (unsigned i = 0; i < VT->getNumElements(); i++) storeTyped(E.bin(O_ADD, p, Val(i * es, 64), 64), (*v.n->agg)[i], VT->getElementType()); return; }
  store(p, v, DL->getTypeStoreSize(T)); }
static bool isVec(Type* T) { return T->isVectorTy(); }

static void finishPath() { nPaths++; maxPathSteps = std::max(maxPathSteps, S->steps);
  // reservoir of completed paths for native cross-validation
  Sample sm; bool take = false; size_t slot = 0; if ((int)samples.size() < optSamples) { take = true; slot = samples.size(); samples.push_back(sm); } else if (optSamples > 0) { u64 r = rng() % nPaths; if (r < (u64)optSamples) { take = true; slot = r; } }
  if (take) { samples[slot].inputs = concInputs(*S->model); samples[slot].notes = concNotes(*S->model); } }

static void step() {
  Frame& f = topW(); int pc0 = f.pc; I_& x = f.fn->code[pc0]; Instruction* I = x.inst; curInst = I; nSteps++; 
  if (++S->steps > optMaxSteps) { recordViol("hang", "path exceeds the step bound", *S->model); throw PathEnd(); }
  if ((nSteps & 255) == 0 || covSeen.find(I) == covSeen.end()) coverInst(I);
  if (optTrace) fprintf(stderr, "[%d] %s %s %s\n", S->cur, I->getOpcodeName(), f.fn->name.c_str(), srcLoc(I).c_str());
  auto A = [&]() -> const Val& { return R(f, x.a); }; auto B = [&]() -> const Val& { return R(f, x.b); };
  auto vecbin = [&](auto fn) { const Val &a = A(), &b = B(); std::vector<Val> r; for (size_t i = 0; i < a.n->agg->size(); i++) r.push_back(fn((*a.n->agg)[i], (*b.n->agg)[i])); return mkAgg(r); };
  switch (x.opc) {
    case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::And: case Instruction::Or: case Instruction::Xor: {
      static const std::map<unsigned, Op> mp = {}; Op op = x.opc == Instruction::Add ? O_ADD : x.opc == Instruction::Sub ? O_SUB : x.opc == Instruction::Mul ? O_MUL : x.opc == Instruction::And ? O_AND : x.opc == Instruction::Or ? O_OR : O_XOR;
      if (isVec(I->getType())) f.regs[x.dst] = vecbin([&](const Val& a, const Val& b) { return E.bin(op, a, b, a.w); }); else f.regs[x.dst] = E.bin(op, A(), B(), x.w); f.pc++; return; }
    case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: { Op op = x.opc == Instruction::Shl ? O_SHL : x.opc == Instruction::LShr ? O_LSHR : O_ASHR; if (isVec(I->getType())) f.regs[x.dst] = vecbin([&](const Val& a, const Val& b) { return E.bin(op, a, b, a.w); }); else f.regs[x.dst] = E.bin(op, A(), B(), x.w); f.pc++; return; }
    case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem: {
      Val b = B(); Val z = E.bin(O_EQ, b, Val(0, b.w), 1); if (b.n || b.c == 0) { if (branchRedo(z)) violation("arith", "division by zero"); }
      Op op = x.opc == Instruction::UDiv ? O_UDIV : x.opc == Instruction::SDiv ? O_SDIV : x.opc == Instruction::URem ? O_UREM : O_SREM; f.regs[x.dst] = E.bin(op, A(), B(), x.w); f.pc++; return; }
    case Instruction::FAdd: f.regs[x.dst] = E.bin(O_FADD, A(), B(), x.w); f.pc++; return;
    case Instruction::FSub: f.regs[x.dst] = E.bin(O_FSUB, A(), B(), x.w); f.pc++; return;
    case Instruction::FMul: f.regs[x.dst] = E.bin(O_FMUL, A(), B(), x.w); f.pc++; return;
    case Instruction::FDiv: f.regs[x.dst] = E.bin(O_FDIV, A(), B(), x.w); f.pc++; return;
    case Instruction::FNeg: f.regs[x.dst] = E.bin(O_XOR, A(), Val(1ull << (x.w - 1), x.w), x.w); f.pc++; return;
    case Instruction::FCmp: f.regs[x.dst] = fcmp(cast<FCmpInst>(I)->getPredicate(), A(), B()); f.pc++; return;
    case Instruction::ICmp: if (isVec(I->getType())) f.regs[x.dst] = vecbin([&](const Val& a, const Val& b) { return icmp(cast<ICmpInst>(I)->getPredicate(), a, b); }); else f.regs[x.dst] = icmp(cast<ICmpInst>(I)->getPredicate(), A(), B()); f.pc++; return;
    case Instruction::Trunc: f.regs[x.dst] = E.extract(A(), 0, x.w); f.pc++; return;
    case Instruction::ZExt: f.regs[x.dst] = E.zext(A(), x.w); f.pc++; return;
    case Instruction::SExt: f.regs[x.dst] = E.sext(A(), x.w); f.pc++; return;
    case Instruction::PtrToInt: { Val v = A(); f.regs[x.dst] = x.w < 64 ? E.extract(v, 0, x.w) : v; f.pc++; return; }
    case Instruction::IntToPtr: { Val v = A(); f.regs[x.dst] = v.w < 64 ? E.zext(v, 64) : v; f.pc++; return; }
    case Instruction::BitCast: { Type *st = I->getOperand(0)->getType(), *dt = I->getType(); Val v = A();
      if (st->isVectorTy() && !dt->isVectorTy()) { const Node* r = nullptr; for (auto& e : *v.n->agg) r = r ? E.mkConcat(E.node(e), r) : E.node(e); f.regs[x.dst] = E.val(r); }
      else if (!st->isVectorTy() && dt->isVectorTy()) { auto* VT = cast<FixedVectorType>(dt); unsigned ew = tyBits(VT->getElementType()); std::vector<Val> r; for (unsigned i = 0; i < VT->getNumElements(); i++) r.push_back(E.extract(v, i * ew, ew)); f.regs[x.dst] = mkAgg(r); }
      else if (st->isVectorTy() && dt->isVectorTy()) { const Node* r = nullptr; for (auto& e : *v.n->agg) r = r ? E.mkConcat(E.node(e), r) : E.node(e); auto* VT = cast<FixedVectorType>(dt); unsigned ew = tyBits(VT->getElementType()); std::vector<Val> q; for (unsigned i = 0; i < VT->getNumElements(); i++) q.push_back(E.val(E.mkExtract(r, i * ew, ew))); f.regs[x.dst] = mkAgg(q); }
      else f.regs[x.dst] = v; f.pc++; return; }
    case Instruction::Freeze: f.regs[x.dst] = A(); f.pc++; return;
    case Instruction::SIToFP: f.regs[x.dst] = E.bin(O_SITOFP, A(), A(), x.w); if (A().n) { f.regs[x.dst] = E.val(E.intern(O_SITOFP, x.w, A().n, nullptr, nullptr, 0)); } f.pc++; return;
    case Instruction::UIToFP: f.regs[x.dst] = A().n ? E.val(E.intern(O_UITOFP, x.w, A().n, nullptr, nullptr, 0)) : Val((u64)Exprs::evalOp(O_UITOFP, x.w, A().c, 0, 0, A().w, 0, 0), x.w); f.pc++; return;
    case Instruction::FPToSI: case Instruction::FPToUI: case Instruction::FPExt: case Instruction::FPTrunc: { Op op = x.opc == Instruction::FPToSI ? O_FPTOSI : x.opc == Instruction::FPToUI ? O_FPTOUI : x.opc == Instruction::FPExt ? O_FPEXT : O_FPTRUNC; if (x.w > 64 || A().w > 64) giveup("long double"); f.regs[x.dst] = A().n ? E.val(E.intern(op, x.w, A().n, nullptr, nullptr, 0)) : Val((u64)Exprs::evalOp(op, x.w, A().c, 0, 0, A().w, 0, 0), x.w); f.pc++; return; }
    case Instruction::Select: { Val c = A(); const Val &t = R(f, x.b), &e = R(f, x.c); if (c.n && c.n->op == O_AGG) { std::vector<Val> r; for (size_t i = 0; i < c.n->agg->size(); i++) r.push_back(E.ite((*c.n->agg)[i], (*t.n->agg)[i], (*e.n->agg)[i])); f.regs[x.dst] = mkAgg(r); f.pc++; return; }
      if (c.isC()) f.regs[x.dst] = c.c ? t : e; else if (I->getType()->isPointerTy() || isVec(I->getType()) || I->getType()->isAggregateType()) f.regs[x.dst] = branchRedo(c) ? t : e; else f.regs[x.dst] = E.ite(c, t, e); f.pc++; return; }
    case Instruction::GetElementPtr: { Val p = A(); if (isVec(I->getType())) giveup("vector gep"); u64 cst = f.fn->gepc[x.aux]; for (auto& g : f.fn->geps[x.aux]) { Val idx = R(f, g.op); if (idx.w < 64) idx = E.sext(idx, 64); if (idx.isC()) cst += idx.c * g.scale; else p = E.bin(O_ADD, p, E.bin(O_MUL, idx, Val(g.scale, 64), 64), 64); } f.regs[x.dst] = cst ? E.bin(O_ADD, p, Val(cst, 64), 64) : p; f.pc++; return; }
    case Instruction::Alloca: { u64 n = conc(A()); u64 a = allocObj(n * (u64)x.aux, 2, 0xCD); f.allocas.push_back(addrId(a)); f.regs[x.dst] = Val(a, 64); f.pc++; return; }
    case Instruction::Load: { Type* T = I->getType(); if (x.w && !isVec(T)) f.regs[x.dst] = load(A(), x.aux, x.w); else f.regs[x.dst] = loadTyped(A(), T); f.pc++; return; }
    case Instruction::Store: { Type* T = I->getOperand(0)->getType(); if (tyBits(T) && !isVec(T)) store(B(), A(), x.aux); else storeTyped(B(), A(), T); f.pc++; return; }
    case Instruction::AtomicRMW: { auto* RM = cast<AtomicRMWInst>(I); unsigned by = DL->getTypeStoreSize(I->getType()); Val old = load(A(), by, x.w); Val v = B(), nv; switch (RM->getOperation()) { case AtomicRMWInst::Xchg: nv = v; break; case AtomicRMWInst::Add: nv = E.bin(O_ADD, old, v, x.w); break; case AtomicRMWInst::Sub: nv = E.bin(O_SUB, old, v, x.w); break; case AtomicRMWInst::And: nv = E.bin(O_AND, old, v, x.w); break; case AtomicRMWInst::Or: nv = E.bin(O_OR, old, v, x.w); break; case AtomicRMWInst::Xor: nv = E.bin(O_XOR, old, v, x.w); break; default: giveup("atomicrmw"); } store(A(), nv, by); f.regs[x.dst] = old; f.pc++; return; }
    case Instruction::AtomicCmpXchg: { unsigned by = DL->getTypeStoreSize(I->getOperand(1)->getType()); unsigned w = tyBits(I->getOperand(1)->getType()); Val old = load(A(), by, w); Val eq = E.bin(O_EQ, old, B(), 1); store(A(), E.ite(eq, R(f, x.c), old), by); f.regs[x.dst] = mkAgg({old, eq}); f.pc++; return; }
    case Instruction::Fence: f.pc++; return;
    case Instruction::ExtractValue: { Val v = A(); for (unsigned i : f.fn->idxs[x.aux]) { if (!v.n || v.n->op != O_AGG) giveup("extractvalue"); v = (*v.n->agg)[i]; } f.regs[x.dst] = v; f.pc++; return; }
    case Instruction::InsertValue: { Val v = A(); auto& ix = f.fn->idxs[x.aux]; std::function<Val(const Val&, size_t)> ins = [&](const Val& cur, size_t d) -> Val { if (d == ix.size()) return B(); std::vector<Val> vs = *cur.n->agg; vs[ix[d]] = ins(vs[ix[d]], d + 1); return mkAgg(vs); }; f.regs[x.dst] = ins(v, 0); f.pc++; return; }
    case Instruction::ExtractElement: { u64 i = conc(B()); f.regs[x.dst] = (*A().n->agg)[i]; f.pc++; return; }
    case Instruction::InsertElement: { u64 i = conc(R(f, x.c)); std::vector<Val> vs = *A().n->agg; vs[i] = B(); f.regs[x.dst] = mkAgg(vs); f.pc++; return; }
    case Instruction::ShuffleVector: { auto* SVI = cast<ShuffleVectorInst>(I); std::vector<Val> r; auto &a = *A().n->agg, &b = *B().n->agg; for (int m : SVI->getShuffleMask()) r.push_back(m < 0 ? Val(0, a[0].w) : m < (int)a.size() ? a[m] : b[m - a.size()]); f.regs[x.dst] = mkAgg(r); f.pc++; return; }
    case Instruction::Br: { if (x.aux == 1) { takeEdge(f, x.b); return; } bool t = branchRedo(A()); takeEdge(f, t ? x.b : x.c); return; }
    case Instruction::Switch: { Val v = resolveKnown(A()); auto& t = f.fn->switches[x.aux]; if (v.isC()) { for (auto& c : t) if (c.first.c == v.c) { takeEdge(f, c.second); return; } takeEdge(f, x.b); return; }
      // group cases by destination block, one disjunction per destination
      std::map<int, std::pair<int, const Node*>> grp; std::vector<int> order; 
      for (auto& c : t) { int dst = f.fn->edges[c.second].phis.empty() ? f.fn->edges[c.second].pc : -1 - c.second; const Node* e = E.mk(O_EQ, 1, v.n, E.node(c.first)); auto it = grp.find(dst); if (it == grp.end()) { grp[dst] = {c.second, e}; order.push_back(dst); } else it->second.second = E.mk(O_OR, 1, it->second.second, e); }
      for (int d : order) { if (branchRedo(E.val(grp[d].second))) { takeEdge(f, grp[d].first); return; } } takeEdge(f, x.b); return; }
    case Instruction::Unreachable: violation("unreachable", "undefined behaviour: unreachable code executed");
    case Instruction::Resume: { auto& st = S->th[S->cur].st; freeAllocas(f); st.pop_back(); unwind(); return; }
    case Instruction::LandingPad: { Thread& T = S->th[S->cur]; f.regs[x.dst] = mkAgg({Val(T.excPtr, 64), Val((u64)T.excSel, 32)}); f.pc++; return; }
    case Instruction::Ret: {
      Val rv; bool has = x.a != 0x7fffffff; if (has) rv = A(); int t = S->cur; auto& st = S->th[t].st; freeAllocas(f); int rd = f.retDst, ne = f.normalEdge; st.pop_back();
      if (st.empty()) { S->th[t].status = 2; if (t == 0) { finishPath(); throw PathEnd(); } schedule(false); return; }
      Frame& g = topW(); if (rd >= 0 && has) g.regs[rd] = rv; if (ne >= 0) takeEdge(g, ne); return; }
    case Instruction::Call: case Instruction::Invoke: {
      CallI& c = f.fn->calls[x.aux]; FnInfo* fi;
      if (c.direct) { static thread_local std::unordered_map<Function*, FnInfo*>* fc = &fns; auto it = fc->find(c.direct); fi = it != fc->end() ? it->second : compile(c.direct); }
      else { if (c.calleeOp == 0x7fffffff) giveup("inline asm call"); u64 p = toPtr(R(f, c.calleeOp)); i64 id = addrId(p); if (id < 0 || id >= (i64)fnByObj.size() || !fnByObj[id] || p != objBase(id)) violation("memory", "call through an invalid function pointer"); fi = compile(fnByObj[id]->F); }
      // scheduling points
      if (fi->handler == h_sched || fi->handler == h_access) {
        Thread& T = S->th[S->cur]; bool pt = true;
        if (fi->handler == h_access) { pt = false; if (!S->watch.empty() && S->th.size() > 1) { Val pv = resolveKnown(R(f, c.args[0])); u64 p = pv.isC() ? pv.c : (u64)E.eval(pv.n, *S->model); u64 n = conc(R(f, c.args[1])); for (auto& w : S->watch) if (p < w.first + w.second && w.first < p + n) pt = true; } }
        if (pt && S->th.size() > 1 && !T.passed) { schedule(true); return; }
        T.passed = false; f.pc++; if (c.normalEdge >= 0) takeEdge(f, c.normalEdge); return; }
      if (fi->handler == h_yieldto) { Thread& T = S->th[S->cur]; bool other = false; for (int t = 0; t < (int)S->th.size(); t++) if (t != S->cur && threadEnabled(t)) other = true;
        if (other && !T.passed) { schedule(false); return; } T.passed = false; if (cfgRace && S->th.size() > 1) raceW().acqAll(S->cur); f.pc++; if (c.normalEdge >= 0) takeEdge(f, c.normalEdge); return; }
      if (fi->handler == h_quiet) { S->quiet = (int)conc(R(f, c.args[0])); if (cfgRace && !S->quiet && S->th.size() > 1) raceW().barrier(); f.pc++; if (c.normalEdge >= 0) takeEdge(f, c.normalEdge); return; }
      if (fi->handler == h_block) { // sx_block_on(int* p, int wantNonzero)
        Thread& T = S->th[S->cur]; u64 p = toPtr(R(f, c.args[0])); int want = conc(R(f, c.args[1])); Val v = loadConc(p, 4, 32); u64 cv = conc(v); bool ok = want ? cv != 0 : cv == 0;
        if (ok) { T.passed = false; f.pc++; if (c.normalEdge >= 0) takeEdge(f, c.normalEdge); return; }
        T.status = 1; T.blockAddr = p; T.blockWant = want; schedule(false); return; }
      if (fi->handler == h_joinall) { bool all = true; for (int t = 0; t < (int)S->th.size(); t++) if (t != S->cur && S->th[t].status != 2) all = false; if (all) { if (cfgRace) raceW().acqAll(S->cur); S->th[S->cur].passed = false; f.pc++; if (c.normalEdge >= 0) takeEdge(f, c.normalEdge); return; }
        // main stays disabled until the others are done
        std::vector<int> en; for (int t = 0; t < (int)S->th.size(); t++) if (t != S->cur && threadEnabled(t)) en.push_back(t);
        if (en.empty()) { if (S->nodead) { for (auto& t : S->th) t.status = &t == &S->th[S->cur] ? 0 : 2; f.pc++; if (c.normalEdge >= 0) takeEdge(f, c.normalEdge); return; } violation("deadlock", "all remaining threads are blocked forever"); }
        int me = S->cur; if (S->quiet) { int t = en[0]; for (size_t i = en.size(); i-- > 0;) if (en[i] > S->cur) t = en[i]; S->cur = t; S->th[t].status = 0; S->th[t].passed = true; } else if (en.size() == 1) { S->cur = en[0]; S->th[en[0]].status = 0; S->th[en[0]].passed = true; } else { const Node* v; newVarInput("sched", 8, &v); nSched++; auto apply = [&](State* st, size_t i) { const Node* sc = E.mk(O_EQ, 1, v, E.K(i, 8)); schedC.insert(sc); addPc(st, sc); auto nm = std::make_shared<std::vector<u64>>(*st->model); u64 id = (u64)v->k; if (id >= nm->size()) nm->resize(id + 1); (*nm)[id] = i; st->model = nm; st->cur = en[i]; st->th[en[i]].status = 0; st->th[en[i]].passed = true; }; for (size_t i = 1; i < en.size(); i++) { State* o = forkState(); apply(o, i); o->th[me].status = 3; work.push_back(o); } apply(S, 0); }
        S->th[me].status = 3; return; }
      if (fi->handler == h_nodead) { S->nodead = true; f.pc++; if (c.normalEdge >= 0) takeEdge(f, c.normalEdge); return; }
      std::vector<Val> args; args.reserve(c.args.size()); for (int o : c.args) args.push_back(o == 0x7fffffff ? Val(0, 64) : R(f, o));
      if (auto* II = dyn_cast<IntrinsicInst>(I)) { bool h; Val r = intrinsic(II, args, f, x.w, h); if (!h) giveup("intrinsic " + II->getCalledFunction()->getName().str()); Frame& g = topW(); setDst(g, x.dst, r); g.pc++; return; }
      if (fi->handler == h_throw) { Thread& T = S->th[S->cur]; throwing = fi;
        if (fi->name == "__cxa_throw") { T.excPtr = toPtr(args[0]); T.excTy = dyn_cast<Constant>(cast<CallBase>(I)->getArgOperand(1)->stripPointerCasts()); }
        else if (fi->name == "__cxa_rethrow") { if (T.caught.empty()) violation("exception", "rethrow without an active exception"); T.excPtr = T.caught.back().first; T.excTy = T.caught.back().second; }
        else { T.excPtr = 0; T.excTy = nullptr; }
        f.pc++; findHandler(); unwind(); return; }
      if (fi->handler == h_setjmp) { u64 p = toPtr(args[0]); Thread& T = S->th[S->cur]; f.pc++; u64 pc = f.pc; if (c.normalEdge >= 0) takeEdge(f, c.normalEdge); setDst(f, x.dst, Val(0, 32)); store(Val(p, 64), Val(T.st.size(), 64), 8); store(Val(p + 8, 64), Val((u64)pc << 24 | (u64)(x.dst + 1), 64), 8); store(Val(p + 16, 64), Val((u64)(uintptr_t)f.fn, 64), 8); return; }
      if (fi->handler == h_longjmp) { u64 p = toPtr(args[0]); u64 d = conc(load(Val(p, 64), 8, 64)), w = conc(load(Val(p + 8, 64), 8, 64)), fp = conc(load(Val(p + 16, 64), 8, 64)); Thread& T = S->th[S->cur]; if (!d || d > T.st.size()) violation("memory", "longjmp to a frame that is gone"); while (T.st.size() > d) { Frame& g = topW(); freeAllocas(g); T.st.pop_back(); }
        Frame& g = topW(); if ((u64)(uintptr_t)g.fn != fp) violation("memory", "longjmp to a frame that is gone"); g.pc = (int)(w >> 24); const I_& si = g.fn->code[g.pc - 1]; if (si.opc == Instruction::Invoke) takeEdge(g, g.fn->calls[si.aux].normalEdge); Val v = args[1]; u64 cv = conc(v); setDst(g, (int)(w & 0xffffff) - 1, Val(cv ? cv : 1, 32)); return; }
      if (fi->handler == h_begincatch) { Thread& T = S->th[S->cur]; T.caught.push_back({T.excPtr, T.excTy}); setDst(f, x.dst, args[0]); f.pc++; if (c.normalEdge >= 0) takeEdge(f, c.normalEdge); return; }
      if (fi->handler == h_endcatch) { Thread& T = S->th[S->cur]; if (!T.caught.empty()) T.caught.pop_back(); f.pc++; if (c.normalEdge >= 0) takeEdge(f, c.normalEdge); return; }
      if (fi->decl) { if (fi->handler < 0) giveup("external function " + demangle_(fi->name)); Val r; doHandler(fi, args, f, r, x.w); Frame& g = topW(); setDst(g, x.dst, x.w && r.w != x.w ? E.extract(E.zext(r, 64), 0, x.w) : r); g.pc++; if (c.normalEdge >= 0) takeEdge(g, c.normalEdge); return; }
      std::vector<u64> bv; for (auto& b : c.byval) { u64 cp = allocObj(b.second, 2, 0); copyMem(cp, toPtr(args[b.first]), b.second); args[b.first] = Val(cp, 64); bv.push_back(addrId(cp)); }
      f.pc++; pushFrame(S->cur, fi, args, x.dst, c.normalEdge); for (u64 id : bv) top().allocas.push_back(id); return; }
    default: giveup(std::string("opcode ") + I->getOpcodeName());
  }
}
// status 3: waiting in join_all
static bool joinReady() { for (int t = 0; t < (int)S->th.size(); t++) if (S->th[t].status == 3) { bool all = true; for (int u = 0; u < (int)S->th.size(); u++) if (u != t && S->th[u].status != 2) all = false; if (all) { S->th[t].status = 0; S->cur = t; if (seenBefore(false)) throw PathEnd(); return true; } } return false; }

static void runState() {
  try { while (true) {
      Thread& T = S->th[S->cur];
      if (T.status == 2 || T.status == 3) { if (joinReady()) continue; 
        std::vector<int> en; for (int t = 0; t < (int)S->th.size(); t++) if (S->th[t].status < 2 && threadEnabled(t)) en.push_back(t);
        if (en.empty()) { bool j = -1; (void)j; if (S->nodead) { int me = -1; for (int t = 0; t < (int)S->th.size(); t++) if (S->th[t].status == 3) me = t; if (me >= 0) { for (int t = 0; t < (int)S->th.size(); t++) if (t != me) S->th[t].status = 2; S->th[me].status = 0; S->cur = me; continue; } } violation("deadlock", "all remaining threads are blocked forever"); }
        violation("internal", "scheduler"); }
      step();
    } } catch (PathEnd&) {}
}
static void scheduleFix();

// json
static std::string jesc(const std::string& s) { std::string r; for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c < 32) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; } return r; }
static void writeOut(const std::string& fn, bool complete, double wall) {
  FILE* o = fopen(fn.c_str(), "w"); if (!o) { perror(fn.c_str()); exit(3); }
  auto ins = [&](const std::vector<std::pair<std::string, std::pair<uint32_t, u64>>>& v) { fprintf(o, "["); for (size_t i = 0; i < v.size(); i++) fprintf(o, "%s[\"%s\",%u,%llu]", i ? "," : "", jesc(v[i].first).c_str(), v[i].second.first, (unsigned long long)v[i].second.second); fprintf(o, "]"); };
  auto nts = [&](const std::vector<std::pair<int,u64>>& v) { fprintf(o, "["); for (size_t i = 0; i < v.size(); i++) fprintf(o, "%s[%d,%llu]", i ? "," : "", v[i].first, (unsigned long long)v[i].second); fprintf(o, "]"); };
  fprintf(o, "{\"complete\":%s,\"paths\":%llu,\"forks\":%llu,\"instructions\":%llu,\"queries\":%llu,\"query_cache_hits\":%llu,\"sat\":%llu,\"unsat\":%llu,\"unknown\":%llu,\"solver_s\":%.3f,\"max_query_s\":%.3f,\"asserts\":%llu,\"assert_queries\":%llu,\"mem_checks\":%llu,\"assume_cut\":%llu,\"sched_points\":%llu,\"merged\":%llu,\"conc_forks\":%llu,\"vars\":%zu,\"max_path_steps\":%llu,\"wall_s\":%.2f,\n", complete ? "true" : "false", (unsigned long long)nPaths, (unsigned long long)nForks, (unsigned long long)nSteps, (unsigned long long)SV->queries, (unsigned long long)SV->cacheHits, (unsigned long long)SV->sat, (unsigned long long)SV->unsat, (unsigned long long)SV->unknowns, SV->time, SV->maxTime, (unsigned long long)nAsserts, (unsigned long long)nAssertQ, (unsigned long long)nMemChk, (unsigned long long)nAssumeKill, (unsigned long long)nSched, (unsigned long long)nMerged, (unsigned long long)nConcForks, E.vars.size(), (unsigned long long)maxPathSteps, wall);
  fprintf(o, "\"incomplete\":["); bool first = true; for (auto& s : incomplete) { fprintf(o, "%s\"%s\"", first ? "" : ",", jesc(s).c_str()); first = false; }
  fprintf(o, "],\n\"reach\":{"); first = true; for (auto& r : reach) { fprintf(o, "%s\"%s\":%llu", first ? "" : ",", jesc(r.first).c_str(), (unsigned long long)r.second); first = false; }
  fprintf(o, "},\n\"functions\":["); first = true; for (auto& s : fcover) { fprintf(o, "%s\"%s\"", first ? "" : ",", jesc(s).c_str()); first = false; }
  fprintf(o, "],\n\"lines\":{"); first = true; for (auto& c : cover) { fprintf(o, "%s\"%s\":[", first ? "" : ",", jesc(c.first).c_str()); bool g = true; for (int l : c.second) { fprintf(o, "%s%d", g ? "" : ",", l); g = false; } fprintf(o, "]"); first = false; }
  fprintf(o, "},\n\"violations\":["); first = true; for (auto& v : viols) { fprintf(o, "%s{\"kind\":\"%s\",\"msg\":\"%s\",\"where\":\"%s\",\"stack\":[", first ? "" : ",\n", jesc(v.kind).c_str(), jesc(v.msg).c_str(), jesc(v.where).c_str()); for (size_t i = 0; i < v.stack.size() && i < 30; i++) fprintf(o, "%s\"%s\"", i ? "," : "", jesc(v.stack[i]).c_str()); fprintf(o, "],\"notes\":"); nts(v.notes); fprintf(o, ",\"inputs\":"); ins(v.inputs); fprintf(o, "}"); first = false; }
  fprintf(o, "],\n\"samples\":["); first = true; for (auto& s : samples) { fprintf(o, "%s{\"inputs\":", first ? "" : ",\n"); ins(s.inputs); fprintf(o, ",\"notes\":"); nts(s.notes); fprintf(o, "}"); first = false; }
  fprintf(o, "]}\n"); fclose(o);
}
static bool exploreAll(size_t stopAt) { // returns true when the work list is exhausted
  while (!work.empty()) {
    if (stopAt && work.size() >= stopAt) return false;
    if (now() - tStart > optTime) { incomplete.insert("time budget exhausted with " + std::to_string(work.size()) + " states pending"); return false; }
    if (viols.size() >= optMaxViol) { incomplete.insert("stopped after violations"); return false; }
    if (stopAt) { S = work.front(); work.erase(work.begin()); } else { S = work.back(); work.pop_back(); }
    runState(); delete S; S = nullptr;
  }
  return true;
}
static int realMain(int argc, char** argv) {
  tStart = now(); std::vector<std::string> files; std::string rt, emit;
  for (int i = 1; i < argc; i++) { std::string a = argv[i]; auto nx = [&]() { return std::string(argv[++i]); };
    if (a == "--out") optOut = nx(); else if (a == "--entry") optEntry = nx(); else if (a == "--repo") optRepo = nx(); else if (a == "--rt") rt = nx(); else if (a == "--emit") emit = nx(); else if (a == "--steps") optMaxSteps = std::stoull(nx()); else if (a == "--time") optTime = std::stod(nx()); else if (a == "--preempt") optPreempt = std::stoi(nx()); else if (a == "--jobs") optJobs = std::stoi(nx()); else if (a == "--samples") optSamples = std::stoi(nx()); else if (a == "--qtimeout") optTimeout = std::stoi(nx()); else if (a == "--arg") optArgs.push_back(std::stoi(nx())); else if (a == "--max-viol") optMaxViol = std::stoull(nx()); else if (a == "-v") optVerbose = true; else if (a == "--nomerge") optMerge = false; else if (a == "--trace") optTrace = true; else files.push_back(a); }
  LLVMContext C; SMDiagnostic err;
  for (auto& fn : files) { auto m = parseIRFile(fn, err, C); if (!m) { err.print("symx", errs()); return 3; } if (!M) M = std::move(m); else if (Linker::linkModules(*M, std::move(m))) return 3; }
  { LoopAnalysisManager a; FunctionAnalysisManager f; CGSCCAnalysisManager c; ModuleAnalysisManager m; PassBuilder pb; pb.registerModuleAnalyses(m); pb.registerCGSCCAnalyses(c); pb.registerFunctionAnalyses(f); pb.registerLoopAnalyses(a); pb.crossRegisterProxies(a, f, c, m);
    ModulePassManager pm; pm.addPass(InternalizePass([](const GlobalValue& g) { return g.getName().starts_with("sx_") || g.getName() == optEntry; })); pm.addPass(GlobalDCEPass()); pm.run(*M, m); }
  instrument(*M);
  if (!emit.empty()) { for (Function& F : *M) if (!F.isDeclaration() && !F.hasFnAttribute(Attribute::NoSanitizeBounds)) F.addFnAttr(Attribute::SanitizeAddress); std::error_code ec; raw_fd_ostream os(emit, ec); WriteBitcodeToFile(*M, os); return 0; }
  if (!rt.empty()) { auto m = parseIRFile(rt, err, C); if (!m) { err.print("symx", errs()); return 3; } instrument(*m); if (Linker::linkModules(*M, std::move(m))) return 3; }
  cfgRace = M->getNamedGlobal("sx_cfg_race") != nullptr; DL = &M->getDataLayout(); SV = new Solver(optTimeout);
  S = new State(); S->model = std::make_shared<std::vector<u64>>();
  // addresses
  std::vector<GlobalVariable*> gvs; for (GlobalVariable& g : M->globals()) { u64 sz = g.getValueType()->isSized() ? (u64)DL->getTypeAllocSize(g.getValueType()) : 64; if (g.isDeclaration() && sz < 256) sz = 256; u64 a = allocObj(sz, 0, 0); gaddr[&g] = a; gvs.push_back(&g); }
  for (Function& F : *M) { u64 a = allocObj(1, 3, 0); gaddr[&F] = a; u64 id = addrId(a); if (fnByObj.size() <= id) fnByObj.resize(id + 1, nullptr); FnInfo* t = new FnInfo(); t->F = &F; fnByObj[id] = t; }
  for (auto* g : gvs) { if (g->hasInitializer()) { Obj* o = S->mem[addrId(gaddr[g])].p; constBytes(g->getInitializer(), o, 0); if (g->isConstant()) o->ro = true; } }
  Function* EF = M->getFunction(optEntry); if (!EF || EF->isDeclaration()) { fprintf(stderr, "no entry %s\n", optEntry.c_str()); return 3; }
  S->th.resize(1);
  // constructors then entry: run each constructor to completion concretely
  std::vector<std::pair<int, Function*>> ctors;
  if (auto* gc = M->getNamedGlobal("llvm.global_ctors")) if (gc->hasInitializer()) if (auto* ca = dyn_cast<ConstantArray>(gc->getInitializer())) for (auto& op : ca->operands()) { auto* cs = cast<ConstantStruct>(op); if (auto* fn = dyn_cast<Function>(cs->getOperand(1)->stripPointerCasts())) ctors.push_back({(int)cast<ConstantInt>(cs->getOperand(0))->getZExtValue(), fn}); }
  std::stable_sort(ctors.begin(), ctors.end(), [](auto& a, auto& b) { return a.first < b.first; });
  int savedSamples = optSamples; optSamples = 0;
  for (auto& c : ctors) { if (c.second->isDeclaration()) continue; pushFrame(0, compile(c.second), {}, -1, -1); size_t before = nPaths; runState(); if (nPaths == before) { fprintf(stderr, "constructor %s failed\n", c.second->getName().str().c_str()); for (auto& s : incomplete) fprintf(stderr, "  %s\n", s.c_str()); for (auto& v : viols) { fprintf(stderr, "  %s %s %s\n", v.kind.c_str(), v.msg.c_str(), v.where.c_str()); for (auto& s : v.stack) fprintf(stderr, "    %s\n", s.c_str()); } writeOut(optOut, false, now() - tStart); return 4; } S->th[0].status = 0; S->th[0].st.clear(); S->steps = 0; }
  optSamples = savedSamples; nPaths = 0; nSteps = 0; nMemChk = 0; maxPathSteps = 0;
  pushFrame(0, compile(EF), {}, -1, -1); work.push_back(S); S = nullptr;
  if (optJobs <= 1) { bool done = exploreAll(0); writeOut(optOut, done && incomplete.empty(), now() - tStart); return viols.empty() ? (done && incomplete.empty() ? 0 : 2) : 1; }
  bool done = exploreAll((size_t)optJobs * 12);
  if (done || viols.size() >= optMaxViol || now() - tStart > optTime) { writeOut(optOut + ".0", done && incomplete.empty(), now() - tStart); return 0; }
  // split the frontier over forked workers; part 0 carries the statistics accumulated so far
  writeOut(optOut + ".0", incomplete.empty(), now() - tStart);
  std::vector<State*> all = work; std::vector<pid_t> pids;
  for (int j = 0; j < optJobs; j++) { fflush(0); pid_t p = fork(); if (p == 0) {
      work.clear(); for (size_t i = j; i < all.size(); i += optJobs) work.push_back(all[i]);
      nPaths = nForks = nSteps = nAsserts = nAssertQ = nMemChk = nAssumeKill = nSched = nConcForks = 0; SV->queries = SV->cacheHits = SV->unknowns = SV->sat = SV->unsat = 0; SV->time = SV->maxTime = 0; viols.clear(); samples.clear(); incomplete.clear(); reach.clear(); violCount.clear(); rng.seed(j + 2); covSeen.clear(); cover.clear(); fcover.clear();
      bool d = exploreAll(0); writeOut(optOut + "." + std::to_string(j + 1), d && incomplete.empty(), now() - tStart); _exit(0); }
    pids.push_back(p); }
  int bad = 0; for (auto p : pids) { int st; waitpid(p, &st, 0); if (!WIFEXITED(st) || WEXITSTATUS(st) != 0) bad++; }
  return bad ? 5 : 0;
}
int main(int argc, char** argv) { int r = realMain(argc, argv); fflush(stdout); fflush(stderr); outs().flush(); errs().flush(); _exit(r); }
