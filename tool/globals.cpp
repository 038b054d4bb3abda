// Shared mutable state: every variable with static storage duration that the
// instantiated code of BitLib owns, and every instruction that may write it.
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/Dominators.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Module.h"
#include "llvm/Demangle/Demangle.h"
#include <map>
#include <set>
#include <sstream>
using namespace llvm;
namespace {
struct Found { std::string where, func, what; };
std::string loc(const Instruction *I) { if (const DebugLoc &d = I->getDebugLoc()) return (d->getFilename().str()[0] == '/' ? "" : d->getDirectory().str() + "/") + d->getFilename().str() + ":" + std::to_string(d.getLine()); return "?"; }
std::string esc(const std::string &s) { std::string r; for (char c : s) { if (c == '"' || c == '\\') r += '\\'; if ((unsigned char)c < 32) { r += ' '; continue; } r += c; } return r; }
bool mine(const std::string &path, const std::string &root) { return path.compare(0, root.size(), root) == 0; }
struct Doms { std::map<const Function *, std::unique_ptr<DominatorTree>> m; DominatorTree &of(const Function *F) { auto &p = m[F]; if (!p) p = std::make_unique<DominatorTree>(*const_cast<Function *>(F)); return *p; } };
std::string callee(const CallBase *cb) { const Function *f = cb->getCalledFunction(); return f ? f->getName().str() : ""; }
// executed once, or under a lock: dominated by the successful arm of a guard, or by taking a lock
bool protectedSite(const Instruction *I, Doms &D, bool &lock) {
  const Function *F = I->getFunction(); std::string fn = F->getName().str(); if (fn.compare(0, 20, "__cxx_global_var_init", 20) == 0 || fn.compare(0, 11, "_GLOBAL__sub", 11) == 0) return true;
  for (const Instruction &X : instructions(*F)) { auto *cb = dyn_cast<CallBase>(&X); if (!cb) continue; std::string n = callee(cb), d = demangle(n);
    if (n == "__cxa_guard_acquire") { for (const User *u : cb->users()) if (auto *ic = dyn_cast<ICmpInst>(u)) for (const User *b : ic->users()) if (auto *br = dyn_cast<BranchInst>(b)) if (br->isConditional()) { const BasicBlock *t = br->getSuccessor(ic->getPredicate() == CmpInst::ICMP_NE ? 0 : 1); if (D.of(F).dominates(t, I->getParent())) return true; } }
    bool takes = n == "pthread_mutex_lock" || d.compare(0, 17, "std::mutex::lock(", 17) == 0 || d.find("::lock_guard(") != std::string::npos || d.find("::unique_lock(") != std::string::npos || d.find("::scoped_lock(") != std::string::npos;
    if (takes && D.of(F).dominates(&X, I)) { lock = true; return true; } }
  return false;
}
}
// JSON: {"functions":n,"variables":n,"accesses":n,"kinds":{..},"open":[..],"findings":[..]}
std::string sharedState(Module &M, const std::string &root) {
  Doms D; long funcs = 0, vars = 0, acc = 0; std::map<std::string, long> kinds; std::set<std::string> open; std::vector<Found> out; std::set<std::string> seen;
  for (auto &F : M) if (!F.isDeclaration() && F.getSubprogram() && mine(F.getSubprogram()->getFile()->getFilename().str(), root)) funcs++;
  for (auto &G : M.globals()) {
    SmallVector<DIGlobalVariableExpression *, 1> dv; G.getDebugInfo(dv); bool own = false; std::string nm = demangle(G.getName().str());
    for (auto *e : dv) if (auto *f = e->getVariable()->getFile()) own = own || mine(f->getFilename().str(), root);
    if (!own) continue; vars++;
    if (G.isConstant()) { kinds["constant"]++; continue; } if (G.isThreadLocal()) { kinds["thread local"]++; continue; }
    bool bad = false, once = false, lk = false, atomic = false, written = false; std::set<const Value *> done; std::vector<const Value *> work{&G};
    auto wr = [&](const Instruction *I, const std::string &how) { acc++; written = true; bool l = false; if (protectedSite(I, D, l)) { (l ? lk : once) = true; return; }
      bad = true; std::string w = loc(I), fn = demangle(I->getFunction()->getName().str()); if (seen.insert(w + nm).second) out.push_back({w, fn, how + " the shared variable " + nm + " without a guard, a lock or an atomic access"}); };
    while (!work.empty()) { const Value *v = work.back(); work.pop_back(); if (!done.insert(v).second) continue;
      for (const Use &U : v->uses()) { const User *u = U.getUser();
        if (isa<ConstantExpr>(u) || isa<GetElementPtrInst>(u) || isa<BitCastInst>(u) || isa<PHINode>(u) || isa<SelectInst>(u) || isa<AddrSpaceCastInst>(u)) { work.push_back(u); continue; }
        if (auto *S = dyn_cast<StoreInst>(u)) { if (U.getOperandNo() == 1) { if (S->isAtomic()) { acc++; atomic = true; } else wr(S, "writes"); } else open.insert(nm + ": address stored at " + loc(S)); continue; }
        if (isa<AtomicRMWInst>(u) || isa<AtomicCmpXchgInst>(u)) { acc++; atomic = true; continue; }
        if (isa<LoadInst>(u) || isa<ICmpInst>(u)) { acc++; continue; }
        if (auto *R = dyn_cast<ReturnInst>(u)) { for (const User *c : R->getFunction()->users()) if (isa<CallBase>(c)) work.push_back(c); continue; }
        if (auto *cb = dyn_cast<CallBase>(u)) { if (!cb->isArgOperand(&U)) continue; unsigned k = cb->getArgOperandNo(&U); const Function *f = cb->getCalledFunction();
          if (auto *mi = dyn_cast<MemIntrinsic>(cb)) { if (k == 0) wr(mi, "overwrites"); else acc++; continue; } if (isa<IntrinsicInst>(cb)) continue;
          bool l = false; if (protectedSite(cb, D, l)) { acc++; (l ? lk : once) = true; continue; } // constructed once, or used under a lock
          if (f && !f->isDeclaration() && k < f->arg_size()) work.push_back(f->getArg(k)); else open.insert(nm + ": passed to " + (f ? demangle(f->getName().str()) : "an unknown function") + " at " + loc(cb)); continue; }
        if (auto *I = dyn_cast<Instruction>(u)) open.insert(nm + ": used at " + loc(I)); } }
    kinds[bad ? "unprotected" : once ? "initialised once under a guard" : lk ? "used under a lock" : atomic ? "atomic" : written ? "written" : "never written"]++; }
  std::ostringstream js; js << "{\"functions\":" << funcs << ",\"variables\":" << vars << ",\"accesses\":" << acc << ",\"kinds\":{"; bool f = true; for (auto &k : kinds) { js << (f ? "" : ",") << "\"" << k.first << "\":" << k.second; f = false; }
  js << "},\"open\":["; f = true; for (auto &k : open) { js << (f ? "" : ",") << "\"" << esc(k) << "\""; f = false; }
  js << "],\"findings\":["; f = true; for (auto &k : out) { js << (f ? "" : ",") << "{\"kind\":\"shared-state\",\"where\":\"" << esc(k.where) << "\",\"func\":\"" << esc(k.func) << "\",\"what\":\"" << esc(k.what) << "\",\"path\":\"\"}"; f = false; }
  js << "]}\n"; return js.str();
}
