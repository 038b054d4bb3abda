// Abstract interpreter over LLVM IR (see DESIGN.md).
#pragma once
#include "domain.h"
#include <llvm/IR/Module.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/Dominators.h>
#include <llvm/Analysis/LoopInfo.h>
#include <set>

enum VK : uint8_t { VNone, VLin, VBits, VPtr, VTop, VAgg, VFn, VFloat };
typedef std::vector<Node> Bits;
typedef std::shared_ptr<const Bits> BitsP;
struct Val {
  VK k = VNone; unsigned w = 0; Lin l; int obj = 0; BitsP b;
  std::shared_ptr<const std::vector<Val>> agg; const llvm::Function *fn = nullptr; double f = 0;
  std::string why;
};
struct Tmpl { Bits b; bool hasJ = false; };
typedef std::shared_ptr<const Tmpl> TmplP;
struct Seg { Lin lo, hi; TmplP t; const llvm::Instruction *src = nullptr; };
struct Cell { unsigned sz; Val v; const llvm::Instruction *src = nullptr; };
struct Obj {
  int id = 0; bool words = false, alive = true, heap = false, ro = false, frozen = false, uninit = false, global = false; std::string name;
  int elem = 1; Lin len; int align = 0; int region = 0; int owner = -1; // identity of the allocator it came from
  std::vector<Seg> segs; std::map<i64, Cell> cells;
};
typedef std::shared_ptr<Obj> ObjP;
struct FactSeg { int region; Lin lo, hi; std::vector<Node> v; };   // bit b of region[J] == v[b] (v[b]==~0u: nothing known)
struct LogW { int obj; Lin idx; TmplP t; const llvm::Instruction *src; bool range; };
struct LogA { uint32_t var; Node val; };
struct PathStep { const llvm::Instruction *at; std::string what; };
struct PathList {                                                // persistent list: states share their common prefix
  struct N { PathStep s; mutable std::shared_ptr<const N> prev;
    ~N() { auto p = std::move(prev); while (p && p.use_count() == 1) { auto q = std::move(p->prev); p = std::move(q); } } }; // a long chain must not be released recursively
  std::shared_ptr<const N> last;
  void push_back(PathStep p) { auto n = std::make_shared<N>(); n->s = std::move(p); n->prev = last; last = n; }
  std::vector<PathStep> tail(size_t k) const { std::vector<PathStep> v; for (auto p = last; p && v.size() < k; p = p->prev) if (p->s.what != "@overlay") v.push_back(p->s); std::reverse(v.begin(), v.end()); return v; }
};

struct FnInfo {
  const llvm::Function *f; std::unordered_map<const llvm::Value *, int> num; int nregs = 0;
  std::unique_ptr<llvm::DominatorTree> dt; std::unique_ptr<llvm::LoopInfo> li;
};
struct State;
typedef std::shared_ptr<const State> StateCP;
struct LoopHist { std::vector<StateCP> snap; std::vector<int> forks; int arrivals = 0; StateCP generic; int k = 0, period = 1, phase = 0; std::vector<StateCP> old; std::vector<int> oldForks; };
struct Frame {
  FnInfo *fi; const llvm::BasicBlock *bb = nullptr, *prev = nullptr; llvm::BasicBlock::const_iterator it;
  std::vector<Val> r; const llvm::CallBase *call = nullptr; std::vector<int> allocas;
  std::map<const llvm::BasicBlock *, LoopHist> lh; std::vector<Val> varargs;
};
struct State {
  std::vector<std::shared_ptr<Frame>> st; std::vector<ObjP> objs;
  std::vector<Lin> ge; std::map<uint32_t, Node> asg; std::vector<Node> resid; std::vector<FactSeg> fs;
  std::vector<LogW> wlog; std::vector<LogA> alog;
  std::vector<std::pair<int, Lin>> substs;
  PathList path; int linForks = 0; bool inexact = false;
  std::map<const llvm::Value *, int> globals; long steps = 0;
  int outcome = 0;                                    // 1 returned, 2 exception, 3 terminate, 4 other
  std::string outcomeWhy; const llvm::Instruction *throwSite = nullptr; Val ret;
  std::set<std::string> reported; std::vector<std::string> notes; int allocBudget = -1; // -1: allocation never fails; 100: it may fail; 101: this one succeeds; 0: this one fails
  int guards = 0;                                     // nesting of guarded one-time initialisations
  std::vector<int> objEvents;                         // stores to non-local objects (object ids), for purity
  bool stuck = false, logProved = false;   // logProved: also record conditions that followed from known facts
  Lin norm(Lin e) const { for (auto &p : substs) e = substVar(e, p.first, p.second); return e; }
};
struct Alt { std::vector<Lin> ge, eq; std::vector<std::pair<Node, bool>> nodes; std::vector<std::pair<int, Lin>> subst; std::string what; int budget = -2; };
struct Retry { const llvm::BasicBlock *h; };         // analyse the case again, peeling this loop longer
struct ForkEx { std::vector<Alt> alts; bool lin; };

struct Finding { std::string kind, where, func, what, path; std::map<std::string, i64> inst; };
struct CaseStats { long paths = 0, obligations = 0, discharged = 0, unknown = 0, steps = 0, accel = 0, subsumed = 0, infeasible = 0; };
struct Engine;
struct Case {
  std::string fn, desc, group; int W = 8;
  std::function<void(Engine &, State &)> setup;
  std::function<void(Engine &, State &)> check;
  std::function<void(Engine &, State &, const std::string &, std::vector<Val> &)> obs;
  std::map<std::string, int> params;                   // unbounded parameters introduced by the setup
  std::function<Case(const std::map<std::string, i64> &)> concretise;
  bool symbolic = false, confirm = false;              // confirm: a finding counts once the case made by concretise reports it too
  std::function<bool(Engine &, State &, const llvm::CallBase *, const llvm::Function *, const std::string &, std::vector<Val> &, Val &)> ext;
  long maxSteps = 4000000; long maxPaths = 20000;
};
struct Engine {
  llvm::Module &M; const llvm::DataLayout &DL; Case *C = nullptr; int elemBytes = 1;
  std::map<const llvm::Function *, std::unique_ptr<FnInfo>> fns;
  std::vector<Finding> findings, candidates; std::set<std::string> findKeys, candKeys; CaseStats cs; std::set<std::string> funcsSeen, unknownWhy, cuts, narrowings;
  std::set<std::string> kinds;                         // obligation kinds counted
  std::map<std::string, std::pair<long, long>> byKind; // kind -> (obligations, discharged)
  std::vector<State> work; std::vector<std::string> regionNames; std::vector<char> regionUninit;
  State *cur = nullptr; const llvm::Instruction *curI = nullptr; bool inCheck = false;
  std::map<int, const llvm::BasicBlock *> kHead; std::map<const llvm::BasicBlock *, int> minArr; bool reportDirect = false; bool hitLast = false; double caseSeconds = 60;
  std::function<bool(Engine &, const llvm::CallBase *, const std::string &, std::vector<Val> &, Val &)> extCall;
  Engine(llvm::Module &m) : M(m), DL(m.getDataLayout()) {}
  FnInfo *info(const llvm::Function *f);
  void runCase(Case &c); void runOnce(Case &c);
  // ---- state helpers
  State newState();
  int newObj(State &s, const std::string &name, bool words, int elem, const Lin &len, bool uninit = false);
  Obj &mut(State &s, int id); const Obj &obj(const State &s, int id) { return *s.objs[id]; }
  Frame &top(State &s);
  // ---- reasoning
  bool proveGE0(const State &s, const Lin &e); bool proveEQ0(const State &s, const Lin &e);
  std::set<std::map<std::string, i64>> probes; void probe(const State &s); // sizes that reach a point the unbounded analysis could not pass
  bool satisfiable(const State &s, std::map<int, i64> *model = nullptr);
  bool decideGE0(State &s, const Lin &e, const char *what = ""); int decideSign(State &s, const Lin &e);
  bool decideEQ0(State &s, const Lin &e);
  Node simp(const State &s, Node n); bool decideNode(State &s, Node n); bool decideAll(State &s, std::vector<Node> conj);
  int decideFirstSet(State &s, const Bits &b);
  bool addGe(State &s, const Lin &e); bool addEq(State &s, const Lin &e); bool addNode(State &s, Node n, bool v);
  void substState(State &s, int v, const Lin &by, bool rec = true);
  Node substNode(Node n, int v, const Lin &by, std::unordered_map<Node, Node> &memo);
  void apply(const State &s, const Alt &a, std::vector<State> &out);
  Lin floorDiv(State &s, const Lin &e, i64 d);
  // ---- values
  Val mkC(i64 v, unsigned w); Val mkL(const Lin &l, unsigned w); Val mkB(Bits b); Val mkP(int obj, const Lin &off); Val mkTop(unsigned w, const std::string &why);
  Bits toBits(const Val &v); bool isConst(const Val &v) { return v.k == VLin && v.l.isConst(); }
  uint64_t uval(const Val &v); i64 sval(const Val &v); Bits undefBits(unsigned w, const std::string &why);
  Bits ripple(const Bits &a, const Bits &b, Node cin, Node *cout = nullptr);
  Bits linBits(const Lin &l, unsigned w);
  // ---- memory
  TmplP elemT(Bits b); Bits tmplAt(const TmplP &t, const Lin &idx); TmplP tmplShift(const TmplP &t, const Lin &jexpr);
  const Seg &findSeg(State &s, int o, const Lin &idx); Bits getElem(State &s, int o, const Lin &idx);
  void setElem(State &s, int o, const Lin &idx, const Bits &b, const llvm::Instruction *src);
  void overlayList(State &s, Obj &ob, const Lin &lo, const Lin &hi, const std::vector<Seg> &pcs);
  void overlay(State &s, Obj &ob, const Lin &lo, const Lin &hi, TmplP t, const llvm::Instruction *src);
  bool bounds(State &s, int o, const Lin &off, const Lin &n, bool write, const char *what);
  Bits readBits(State &s, int o, const Lin &off, unsigned bytes, bool check = true);
  void writeBits(State &s, int o, const Lin &off, const Bits &b, bool check = true);
  Val load(State &s, const Val &p, llvm::Type *ty); void store(State &s, const Val &p, const Val &v, llvm::Type *ty);
  void memCopy(State &s, const Val &d, const Val &src, const Val &n); void memFill(State &s, const Val &d, const Val &c, const Val &n);
  std::vector<Seg> cutSegs(State &s, int o, const Lin &lo, const Lin &hi);
  void normSegs(State &s, Obj &o);
  // compares segment lists over [lo,hi); returns true if equal; on mismatch fills description
  struct Mismatch { Lin lo, hi; int bit; Node got, want; const llvm::Instruction *src; };
  bool segsEqual(State &s, std::vector<Seg> a, std::vector<Seg> b, const Lin &lo, const Lin &hi, int bits, Mismatch *mm, const std::vector<char> *dontcare = nullptr);
  bool nodeEq(State &s, Node a, Node b);
  // ---- interpretation
  void step(State &s); void exec(State &s, const llvm::Instruction &I); void branch(State &s, const llvm::BasicBlock *to); void unwind(State &s);
  Val eval(State &s, const llvm::Value *v); Val evalConst(State &s, const llvm::Constant *c); void set(State &s, const llvm::Value *v, Val x);
  Val binop(State &s, unsigned op, const Val &a, const Val &b, llvm::Type *ty, const llvm::Instruction *I);
  Val binopS(State &s, unsigned op, const Val &a, const Val &b, unsigned w, const llvm::Instruction *I);
  Val cmp(State &s, unsigned pred, const Val &a, const Val &b, llvm::Type *ty);
  Val castOp(State &s, unsigned op, const Val &a, llvm::Type *from, llvm::Type *to, const llvm::Instruction *I);
  Val gep(State &s, const llvm::User *g); void call(State &s, const llvm::CallBase &CB); void ret(State &s, Val v, bool has);
  Val select(State &s, const Val &c, const Val &a, const Val &b, llvm::Type *ty);
  bool builtin(State &s, const llvm::CallBase &CB, const llvm::Function *f, std::vector<Val> &a, Val &res);
  bool headerArrival(State &s, const llvm::BasicBlock *h); bool accelerate(State &s, const llvm::BasicBlock *h, LoopHist &lh);
  bool matchesGeneric(State &s, const State &g, const llvm::BasicBlock *h, std::string &why);
  std::vector<Val> lanes(const Val &v, unsigned n, unsigned ew); Val mkLanes(std::vector<Val> v);
  unsigned width(llvm::Type *t); Val sliceVal(const Val &v, unsigned lo, unsigned w);
  // ---- reporting
  std::string loc(const llvm::Instruction *I); std::string funcName(const llvm::Instruction *I); std::string demangle(const std::string &s);
  void report(State &s, const std::string &kind, const llvm::Instruction *at, const std::string &what, bool needExact = true);
  void oblige(const std::string &kind, bool ok) { cs.obligations++; auto &p = byKind[kind]; p.first++; if (ok) { cs.discharged++; p.second++; } }
};
[[noreturn]] void unk(const std::string &w);
