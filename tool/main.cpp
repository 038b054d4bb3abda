#include "spec.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <sys/wait.h>
#include <sys/mman.h>
#include <atomic>
#include <unistd.h>
#include <chrono>
#include <fstream>
#include <sstream>
#include <iostream>
using namespace llvm;
static std::string esc(const std::string &s) { std::string r; for (char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if ((unsigned char)c < 32) r += ' '; else r += c; } return r; }
static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
Lin sumVar(Engine &, int region, const Lin &lo, const Lin &hi) { static std::vector<std::pair<std::string, int>> tab; std::string key = "sum(R" + std::to_string(region) + "[" + str(lo) + "," + str(hi) + "))"; for (size_t i = 0; i < gLV.size(); i++) if (gLV[i].kind == LV_SUM && gLV[i].name == key) return Lin::var(i); LVar v; v.kind = LV_SUM; v.name = key; gLV.push_back(v); return Lin::var(gLV.size() - 1); }
static bool externs(Engine &E, const CallBase *cb, const std::string &n, std::vector<Val> &a, Val &res) {
  if (n.compare(0, 6, "vp_u1_") == 0) { Bits x = E.toBits(a[0]), r; for (Node q : x) r.push_back(B.fun(1, {E.simp(*E.cur, q)})); res = E.mkB(r); return true; }
  if (n.compare(0, 6, "vp_b2_") == 0) { Bits x = E.toBits(a[0]), y = E.toBits(a[1]), r; for (size_t i = 0; i < x.size(); i++) r.push_back(B.fun(2, {E.simp(*E.cur, x[i]), E.simp(*E.cur, y[i])})); res = E.mkB(r); return true; }
  if (n == "vp_arm") { E.cur->allocBudget = 100; return true; } if (n == "vp_disarm") { E.cur->allocBudget = -1; return true; }
  if (E.C->obs && n.compare(0, 3, "vp_") == 0) { E.C->obs(E, *E.cur, n, a); return true; }
  if (!E.C->ext && E.demangle(n).compare(0, 7, "popcnt(") == 0 && a.size() == 2) { // contract of popcnt, checked separately
    State &s = *E.cur; if (a[1].k != VLin || a[0].k != VPtr) unk("popcnt argument"); Lin sz = a[1].l;
    if (sz.isConst() ? sz.c == 0 : E.decideEQ0(s, sz)) { res = E.mkC(0, 64); return true; }
    if (!E.decideGE0(s, sz)) { E.report(s, "oob-read", E.curI, "population count over a negative size " + str(sz)); s.stuck = true; return true; }
    if (!E.bounds(s, a[0].obj, a[0].l, sz, false, "population count operand")) { s.stuck = true; return true; }
    const Obj &o = E.obj(s, a[0].obj); 
    if (sz.isConst()) { Lin l; Bits b = E.readBits(s, a[0].obj, a[0].l, sz.c, false); for (Node q : b) { q = E.simp(s, q); if (q == 1) l = l + Lin(1); else if (q) l = l + Lin::var(bitVar(q)); } res = E.mkL(l, 64); return true; }
    if (!o.words) unk("popcnt of scalar object"); Lin ne = E.floorDiv(s, sz, o.elem), st = E.floorDiv(s, a[0].l, o.elem); if (ne * o.elem != sz || st * o.elem != a[0].l) unk("popcnt of partial words");
    std::vector<Seg> g = E.cutSegs(s, a[0].obj, st, st + ne); if (g.size() != 1) unk("popcnt of rewritten storage"); Bits t = g[0].t->b; for (size_t i = 0; i < t.size(); i++) if (t[i] != B.atom(o.region, Lin::var(J), i)) unk("popcnt of rewritten storage");
    res = E.mkL(sumVar(E, o.region, st, st + ne), 64); return true; }
  return false;
}
std::string sharedState(llvm::Module &M, const std::string &root);
int main(int argc, char **argv) {
  Opts o; std::string bc, outp, root; long only = -1;
  for (int i = 1; i < argc; i++) { std::string a = argv[i]; auto nx = [&]() { return std::string(argv[++i]); };
    if (a == "--bc") bc = nx(); else if (a == "--vec") o.vec = atoi(argv[++i]); else if (a == "--shared-state") root = nx(); else if (a == "--suite") o.suite = nx(); else if (a == "--tier") o.tier = nx(); else if (a == "--cfg") o.cfg = nx(); else if (a == "-W") o.W = atoi(argv[++i]); else if (a == "--seed") o.seed = strtoull(argv[++i], 0, 10); else if (a == "--jobs") o.jobs = atoi(argv[++i]); else if (a == "--only") only = atol(argv[++i]); else if (a == "--out") outp = nx(); else if (a == "--cap") o.cap = atol(argv[++i]); else if (a == "--deadline") o.deadline = atof(argv[++i]); else { fprintf(stderr, "bad argument %s\n", a.c_str()); return 3; } }
  LLVMContext ctx; SMDiagnostic err; auto m = parseIRFile(bc, err, ctx); if (!m) { fprintf(stderr, "cannot read %s\n", bc.c_str()); return 3; }
  if (!root.empty()) { std::string r = sharedState(*m, root); if (outp.empty()) std::cout << r; else std::ofstream(outp) << r; return 0; }
  Suite su; if (o.suite.compare(0, 2, "w:") == 0) buildPrim(su, o); else if (o.suite.compare(0, 2, "v:") == 0) buildVec(su, o); else buildAlgo(su, o);
  long generated = su.size(); 
  { // bounded number of partitions per entry point: the boundary partitions first, the others drawn at random
    std::mt19937_64 rng(o.seed * 104729 + 5); std::map<std::string, std::vector<size_t>> g; for (size_t i = 0; i < su.size(); i++) g[su[i].main.fn + "/" + std::to_string(su[i].heavy)].push_back(i);
    std::vector<size_t> keep; for (auto &p : g) { auto &v = p.second; long cap = o.cap ? std::max<long>(4, o.cap / su[v[0]].heavy) : 0; std::shuffle(v.begin(), v.end(), rng); std::stable_sort(v.begin(), v.end(), [&](size_t a, size_t b) { return su[a].prio > su[b].prio; }); if (cap && (long)v.size() > cap) { size_t np = 0; while (np < v.size() && su[v[np]].prio) np++; size_t kp = std::min<size_t>(np, std::max<size_t>(cap / 2, cap > (long)(v.size() - np) ? cap - (v.size() - np) : 0)); std::vector<size_t> u(v.begin(), v.begin() + kp); for (size_t i = np; i < v.size() && (long)u.size() < cap; i++) u.push_back(v[i]); v = u; } keep.insert(keep.end(), v.begin(), v.end()); }
    if (only < 0) { std::shuffle(keep.begin(), keep.end(), rng); std::stable_sort(keep.begin(), keep.end(), [&](size_t a, size_t b) { return su[a].heavy > su[b].heavy; }); Suite s2; for (size_t i : keep) s2.push_back(std::move(su[i])); su.swap(s2); } }
  if (su.empty()) { fprintf(stderr, "no cases for suite %s\n", o.suite.c_str()); return 3; }
  auto *next = (std::atomic<size_t> *)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); new (next) std::atomic<size_t>(0);
  int jobs = only >= 0 ? 1 : o.jobs; double t0 = now(); std::vector<std::string> files; std::vector<pid_t> pids;
  for (int w = 0; w < jobs; w++) {
    char tmpl[] = "/tmp/vpaXXXXXX"; int fd = mkstemp(tmpl); close(fd); files.push_back(tmpl); pid_t p = fork(); if (p) { pids.push_back(p); continue; }
    Engine E(*m); E.extCall = externs; std::ostringstream js; long skipped = 0, done = 0, fb = 0, undec = 0; std::vector<std::string> undecided, samples; int rc = 0; double worst = 0, probeTime = 0; std::string worstName;
    auto run = [&](Case &c) { long u0 = E.cs.unknown; double a = now(); E.runCase(c); double d = now() - a; if (d > worst) { worst = d; worstName = c.fn + " " + c.desc; } done++; if (samples.size() < 2) samples.push_back(c.fn + " " + c.desc); bool sure = E.cs.unknown == u0;
      // candidate counterexamples of an unbounded partition count only once the partition with those sizes fails too
      std::vector<Finding> cand; cand.swap(E.candidates); E.candKeys.clear();
      for (auto &f : cand) { i64 big = 0; for (auto &q : f.inst) big = std::max(big, q.second); if (E.findKeys.count(f.kind + "|" + f.where)) continue; size_t n0 = E.findKeys.size(); if (c.concretise && big <= 6000) { Case k = c.concretise(f.inst); E.runCase(k); E.C = &c; done++; } if (E.findKeys.size() == n0 && !E.hitLast) { sure = false; if (getenv("VPA_DEBUG")) fprintf(stderr, "UNCONFIRMED %s %s: %s %s %s\n", c.fn.c_str(), c.desc.c_str(), f.kind.c_str(), f.where.c_str(), f.what.c_str()); E.unknownWhy.insert("candidate " + f.kind + " at " + f.where + " not confirmed at the sizes it names"); } }
      return sure; };
    try {
      for (size_t i; (i = next->fetch_add(1)) < su.size();) { if (only >= 0) { if (i) break; i = only; }
        if (now() - t0 > o.deadline) { skipped++; continue; }
        std::set<std::string> uw = E.unknownWhy; long u0 = E.cs.unknown; E.probes.clear(); bool ok = run(su[i].main);
        if (!ok && su[i].main.concretise) { // re-analyse the undecided paths at sizes that satisfy their path facts
          auto pr = E.probes; std::set<std::map<std::string, i64>> seen; int n = 0;
          for (int up = 0; up < 4; up++) for (auto it = pr.rbegin(); it != pr.rend(); ++it) { auto m = *it; if (m.empty() || n >= 16 || probeTime > o.deadline / 6 || now() - t0 > o.deadline) break; i64 big = 0; for (auto &q : m) big = std::max(big, q.second); if (big <= 66 || big > 6000) continue; m.begin()->second += up; if (!seen.insert(m).second) continue; n++; double a = now(); Case k = su[i].main.concretise(m); run(k); probeTime += now() - a; } }
        if (!ok && su[i].fallback) { fb++; bool all = true; for (auto &c : su[i].fallback()) all &= run(c); if (all) { /* covered by bounded partitions */ } else ok = false; if (!all) { undec++; if (undecided.size() < 20) undecided.push_back(su[i].main.fn + " " + su[i].main.desc); } }
        else if (!ok) { undec++; if (undecided.size() < 20) undecided.push_back(su[i].main.fn + " " + su[i].main.desc); } if (only >= 0) break; (void)u0; }
    } catch (std::exception &e) { js << "{\"fatal\":\"" << esc(e.what()) << "\"}"; rc = 4; } catch (ForkEx &) { js << "{\"fatal\":\"unexpected fork\"}"; rc = 4; } catch (Unknown &u) { js << "{\"fatal\":\"" << esc(u.why) << "\"}"; rc = 4; }
    if (!rc) {
      js << "{\"cases\":" << done << ",\"skipped\":" << skipped << ",\"fallback\":" << fb << ",\"undecided\":" << undec << ",\"paths\":" << E.cs.paths << ",\"obligations\":" << E.cs.obligations << ",\"discharged\":" << E.cs.discharged << ",\"unknown\":" << E.cs.unknown << ",\"steps\":" << E.cs.steps << ",\"accel\":" << E.cs.accel << ",\"subsumed\":" << E.cs.subsumed << ",\"worst\":" << worst << ",\"worstName\":\"" << esc(worstName) << "\",\"findings\":[";
      bool f = true; for (auto &x : E.findings) { js << (f ? "" : ",") << "{\"kind\":\"" << esc(x.kind) << "\",\"where\":\"" << esc(x.where) << "\",\"func\":\"" << esc(x.func) << "\",\"what\":\"" << esc(x.what) << "\",\"path\":\"" << esc(x.path) << "\"}"; f = false; }
      auto list = [&](const char *nm, auto &c) { js << "],\"" << nm << "\":["; bool f = true; for (auto &x : c) { js << (f ? "" : ",") << "\"" << esc(x) << "\""; f = false; } };
      list("funcs", E.funcsSeen); list("unknownWhy", E.unknownWhy); list("cuts", E.cuts); list("narrowings", E.narrowings); list("undecidedCases", undecided); list("samples", samples); js << "],\"byKind\":{"; f = true; for (auto &p : E.byKind) { js << (f ? "" : ",") << "\"" << p.first << "\":[" << p.second.first << "," << p.second.second << "]"; f = false; } js << "}}";
    }
    std::ofstream(tmpl) << js.str() << "\n"; _exit(rc);
  }
  int bad = 0; for (pid_t p : pids) { int st; waitpid(p, &st, 0); if (!WIFEXITED(st) || WEXITSTATUS(st)) bad++; }
  std::ostringstream all; all << "{\"suite\":\"" << o.suite << "\",\"cfg\":\"" << o.cfg << "\",\"total\":" << su.size() << ",\"generated\":" << generated << ",\"bad\":" << bad << ",\"wall\":" << (now() - t0) << ",\"workers\":["; bool f = true; for (auto &x : files) { std::ifstream in(x); std::stringstream ss; ss << in.rdbuf(); std::string t = ss.str(); if (t.empty()) t = "{\"fatal\":\"worker died\"}"; all << (f ? "" : ",") << t; f = false; unlink(x.c_str()); } all << "]}\n";
  if (outp.empty()) std::cout << all.str(); else std::ofstream(outp) << all.str();
  return bad ? 4 : 0;
}
