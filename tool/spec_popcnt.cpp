// Specification of the population count over byte arrays (libpopcnt.h): the result is the number of set bits for
// every content and size, on every processor, and wider instructions are used only where the processor reports them.
#include "spec.h"
#include <llvm/IR/InlineAsm.h>
using namespace llvm;
// decides whether an affine combination of boolean functions vanishes everywhere.  The terms are split into groups with
// disjoint support; within a group all terms are expanded together, variable by variable: the combination is constant
// exactly when every way to reach the same residual functions has accumulated the same amount.
bool linIsZero(Engine &E, State &s, const Lin &d0) {
  Lin d; d.c = d0.c; std::vector<std::pair<Node, i64>> ns; for (auto &t : d0.t) { if (gLV[t.first].kind != LV_BIT) unk("comparison of a bit count with a size"); Node n = E.simp(s, gLV[t.first].node); if (n == 1) d.c += t.second; else if (n) ns.push_back({n, t.second}); }
  std::map<uint32_t, int> owner; std::vector<int> par(ns.size()); std::function<int(int)> root = [&](int i) { while (par[i] != i) i = par[i] = par[par[i]]; return i; };
  for (size_t i = 0; i < ns.size(); i++) { par[i] = i; std::vector<uint32_t> sv; B.support(ns[i].first, sv); for (uint32_t v : sv) { auto it = owner.insert({v, (int)i}).first; int a = root(it->second), b = root(i); if (a != b) par[a] = b; } }
  for (Node f : s.resid) { std::vector<uint32_t> sv; B.support(f, sv); for (uint32_t v : sv) if (owner.count(v)) unk("comparison of bit counts under residual facts"); }
  std::map<int, std::vector<std::pair<Node, i64>>> grp; for (size_t i = 0; i < ns.size(); i++) grp[root(i)].push_back(ns[i]);
  i64 total = d.c; long budget = 4000000;
  for (auto &g : grp) {
    typedef std::vector<std::pair<Node, i64>> Key; std::map<Key, i64> level; // residual -> amount so far
    Key k0 = g.second; std::sort(k0.begin(), k0.end()); level[k0] = 0; bool have = false; i64 end = 0;
    while (!level.empty()) {
      uint32_t v = ~0u; for (auto &p : level) for (auto &q : p.first) v = std::min(v, B.n[q.first].var);
      std::map<Key, i64> nx; for (auto &p : level) for (int side = 0; side < 2; side++) {
        if ((budget -= (long)p.first.size()) < 0) unk("comparison of bit counts too large"); std::map<Node, i64> m; i64 acc = p.second;
        for (auto &q : p.first) { Node n = q.first; if (B.n[n].var == v) n = side ? B.n[n].hi : B.n[n].lo; if (n == 1) acc += q.second; else if (n) m[n] += q.second; }
        Key k; for (auto &q : m) if (q.second) k.push_back(q);
        if (k.empty()) { if (have && end != acc) return false; have = true; end = acc; continue; }
        auto it = nx.insert({k, acc}); if (!it.second && it.first->second != acc) return false; }
      level.swap(nx);
    }
    total += end;
  }
  return total == 0;
}
namespace {
struct Px { int mem = 0, cpu = 0; Lin want; };
// processors: what cpuid and xgetbv report; -1: any combination
struct Cpu { const char *name; int popcnt, osxsave, sse, ymm, zmm, avx2, avx512; };
const Cpu cpus[] = {{"any processor", -1, -1, -1, -1, -1, -1, -1}, {"no extensions", 0, 0, 0, 0, 0, 0, 0}, {"popcnt", 1, 1, 1, 0, 0, 0, 0}, {"avx2", 1, 1, 1, 1, 0, 1, 0}, {"avx2 without popcnt", 0, 1, 1, 1, 0, 1, 0}, {"avx512", 1, 1, 1, 1, 1, 1, 1}, {"avx512 without avx2", 1, 1, 1, 1, 1, 0, 1}, {"avx512 unsupported by the system", 1, 1, 1, 1, 0, 1, 1}, {"avx2 unsupported by the system", 1, 1, 1, 0, 0, 1, 1}};
enum { POPCNT = 23, OSX = 27, AVX2 = 5, AVX512 = 30 };
Node known(int v, Node n) { return v < 0 ? n : (Node)v; }
Node cpuBit(Engine &E, State &s, const Px &x, const Cpu &c, int reg, int bit) { // reg 0: leaf 1 ecx, 1: leaf 7 ebx, 2: xcr0
  Node n = B.atom(E.obj(s, x.cpu).region, Lin(reg), bit); int k = -1;
  if (reg == 0) k = bit == POPCNT ? c.popcnt : bit == OSX ? c.osxsave : -1; else if (reg == 1) k = bit == AVX2 ? c.avx2 : bit == AVX512 ? c.avx512 : -1; else k = bit == 1 ? c.sse : bit == 2 ? c.ymm : bit >= 5 && bit <= 7 ? c.zmm : -1;
  return known(k, n);
}
Val fresh(Engine &E, State &s, const Px &x, const Cpu &c, int reg, unsigned w) { Bits b(w); for (unsigned i = 0; i < w; i++) b[i] = i < 32 ? cpuBit(E, s, x, c, reg, i) : 0; return E.mkB(b); }
bool usable(Engine &E, State &s, const Px &x, const Cpu &c, const std::string &f) {
  auto on = [&](int r, int b) { return E.simp(s, cpuBit(E, s, x, c, r, b)) == 1; }; bool ymm = on(0, OSX) && on(2, 1) && on(2, 2);
  if (f == "popcnt") return on(0, POPCNT); if (f == "avx2") return ymm && on(1, AVX2); return ymm && on(2, 5) && on(2, 6) && on(2, 7) && on(1, AVX512);
}
}
// which bits of the data are unknown: of each 64 the ones congruent `col` modulo `mod`, in the bytes from `from` on; the others have the value fillv
struct Part { int mod = 1, col = 0; i64 from = 0; };
static Case pcnt(const std::string &fn, i64 size, int cpu, Part part, int fillv, bool contract) {
  Case c; c.W = 8; c.fn = fn + "_8"; c.group = "popcnt"; const Cpu &P = cpus[cpu]; bool whole = part.mod == 1 && !part.from; std::string ps = whole ? "" : ", unknown are bits " + std::to_string(part.mod) + "k+" + std::to_string(part.col) + " of the bytes from " + std::to_string(part.from) + ", others " + std::to_string(fillv); auto symAt = [=](i64 i, int b) { return i >= part.from && (i % 8 * 8 + b) % part.mod == part.col; };
  c.desc = std::to_string(size) + " bytes, " + P.name + ps; auto x = std::make_shared<Px>();
  c.setup = [=](Engine &E, State &s) {
    *x = Px(); E.elemBytes = 1; x->mem = E.newObj(s, "data", true, 1, Lin(size)); x->cpu = E.newObj(s, "processor", true, 4, Lin(3)); int r = E.obj(s, x->mem).region;
    // bits that meet in the same adder next to each other in the variable order
    i64 row = size >= 1024 && P.avx512 && P.zmm ? 64 : size >= 512 && P.avx2 ? 32 : 8; for (i64 k = 0; k < row; k++) for (int b = 0; b < 8; b++) for (i64 i = k; i < size; i += row) if (symAt(i, b)) B.atom(r, Lin(i), b);
    Obj &o = E.mut(s, x->mem); o.segs.clear(); for (i64 i = 0; i < size; i++) { Bits e(8); for (int b = 0; b < 8; b++) { e[b] = symAt(i, b) ? B.atom(r, Lin(i), b) : (Node)fillv; if (e[b] == 1) x->want = x->want + Lin(1); else if (e[b]) x->want = x->want + Lin::var(bitVar(e[b])); }
      if (!whole) o.segs.push_back({Lin(i), Lin(i + 1), E.elemT(e), nullptr}); }
    if (whole && size) { Bits e(8); for (int b = 0; b < 8; b++) e[b] = B.atom(r, Lin::var(J), b); o.segs.push_back({Lin(0), Lin(size), mkT(e, true), nullptr}); }
    s.st.back()->r[0] = E.mkP(x->mem, Lin(0)); s.st.back()->r[1] = E.mkC(size, 64); };
  c.ext = [=](Engine &E, State &s, const CallBase *CB, const Function *f, const std::string &n, std::vector<Val> &a, Val &res) -> bool {
    auto may = [&](const std::string &feat) { bool ok = usable(E, s, *x, P, feat); E.oblige("cpu-feature", ok); if (!ok) { E.report(s, "cpu-feature", CB, "popcnt: an instruction of " + feat + " can be executed on a processor that does not report it, or whose system does not save its registers (" + E.C->desc + ")"); s.stuck = true; } return ok; };
    if (n.compare(0, 4, "asm:") == 0) {
      std::string t = n.substr(4); auto *ia = cast<InlineAsm>(CB->getCalledOperand());
      if (t.find("popcnt") != std::string::npos) { if (!may("popcnt")) return true; return false; }
      if (t.find("xgetbv") != std::string::npos) { if (CB->getType()->isStructTy()) return false; res = fresh(E, s, *x, P, 2, E.width(CB->getType())); return true; }
      if (t.find("cpuid") == std::string::npos) return false;
      auto cs = ia->ParseConstraints(); std::vector<std::string> outs; std::map<std::string, Val> in; unsigned ai = 0;
      for (auto &q : cs) { if (q.Type == InlineAsm::isOutput) outs.push_back(q.Codes.empty() ? "" : q.Codes[0]); else if (q.Type == InlineAsm::isInput) { std::string k = q.Codes.empty() ? "" : q.Codes[0]; if (!k.empty() && isdigit(k[0])) k = outs.at(atoi(k.c_str())); if (ai < a.size()) in[k] = a[ai++]; } }
      auto *st = dyn_cast<StructType>(CB->getType()); if (!st || st->getNumElements() != outs.size() || !in.count("{ax}") || !E.isConst(in["{ax}"])) return false; i64 leaf = in["{ax}"].l.c;
      auto ag = std::make_shared<std::vector<Val>>(); for (size_t i = 0; i < outs.size(); i++) { unsigned w = E.width(st->getElementType(i)); if (leaf == 1 && outs[i] == "{cx}") ag->push_back(fresh(E, s, *x, P, 0, w)); else if (leaf == 7 && outs[i] == "{bx}") { if (!in.count("{cx}") || !E.isConst(in["{cx}"]) || in["{cx}"].l.c) return false; ag->push_back(fresh(E, s, *x, P, 1, w)); } else ag->push_back(E.mkB(E.undefBits(w, "processor information"))); }
      res = Val(); res.k = VAgg; res.agg = ag; return true;
    }
    if (f && !f->isDeclaration()) { std::string want = f->getFnAttribute("target-features").getValueAsString().str(), have = CB->getFunction()->getFnAttribute("target-features").getValueAsString().str(); for (const char *q : {"avx512bw", "avx2"}) { std::string p = std::string("+") + q; if (want.find(p) != std::string::npos && have.find(p) == std::string::npos) { if (!may(q)) return true; break; } } }
    std::string d = E.demangle(n); auto is = [&](const char *p) { std::string k = std::string(p) + "("; return d == p || d.compare(0, k.size(), k) == 0; };
    if (contract && f && a.size() == 1 && (is("popcnt256") || is("popcnt512") || is("popcount64"))) {
      Val v = a[0]; if (v.k == VPtr && f->getArg(0)->hasByValAttr()) v = E.load(s, v, f->getParamByValType(0)); if (v.k != VBits) return false;
      auto sum = [&](const Bits &b, unsigned lo) { Lin l; for (unsigned i = lo; i < lo + 64; i++) { Node q = E.simp(s, b[i]); if (q == 1) l = l + Lin(1); else if (q) l = l + Lin::var(bitVar(q)); } return E.mkL(l, 64); };
      if (v.w == 64) { res = sum(*v.b, 0); return true; } if (v.w % 64) return false; std::vector<Val> r; for (unsigned i = 0; i < v.w; i += 64) r.push_back(sum(*v.b, i)); res = E.mkLanes(r); return true; }
    return false; };
  c.check = [=](Engine &E, State &s) {
    E.oblige("no-exception", s.outcome == 1); if (s.outcome != 1) { E.report(s, "exception", s.throwSite, "popcnt terminates with " + s.outcomeWhy + " (" + E.C->desc + ")"); return; }
    Lin got; if (s.ret.k == VLin) got = s.ret.l; else { Bits b = E.toBits(s.ret); for (int i = 0; i < 64; i++) { Node q = E.simp(s, b[i]); if (q == 1) got = got + Lin((i64)1 << i); else if (q) { if (i > 40) { got = Lin(-1); break; } got = got + Lin::var(bitVar(q), (i64)1 << i); } } }
    bool ok = linIsZero(E, s, got - x->want); E.oblige("value", ok); if (!ok) E.report(s, "value", nullptr, "popcnt of " + E.C->desc + ": the result differs from the number of set bits"); 
    for (int o : s.objEvents) { bool w = o == x->mem; E.oblige("read-only", !w); if (w) E.report(s, "read-only", nullptr, "popcnt writes to the data"); } };
  if (contract) { c.confirm = true; c.concretise = [=](const std::map<std::string, i64> &) { return size <= 40 ? pcnt(fn, size, cpu, Part{}, 0, false) : pcnt(fn, size, cpu, Part{64, 5, 0}, 0, false); }; }
  return c;
}
void buildPopcnt(Suite &out, const Opts &o) {
  bool th = o.tier == "thorough"; auto add = [&](Case c, int heavy = 1) { out.push_back({c, nullptr, true, heavy}); }; std::mt19937_64 rng(o.seed * 977 + 3); Part all;
  for (i64 n = 0; n <= (th ? 200 : 72); n++) for (int cpu : {0, 1, 2, 5}) { if (n > 24 && cpu == 0) continue; add(pcnt("pcnt", n, cpu, all, 0, true)); }
  for (i64 n : {0, 1, 7, 8, 9, 15, 16, 17, 31, 33, 40}) { if (n) add(pcnt("pcnt2", n, 0, all, 0, true)); for (int cpu : {1, 2}) if (n <= 17) add(pcnt("pcnt", n, cpu, all, 0, false)); }
  std::vector<i64> mid = {504, 511, 512, 513, 519, 520, 543, 544, 545, 576, 1008, 1016, 1023}, big = {1024, 1025, 1031, 1032, 1055, 1056, 1064, 1087, 1088}, huge = {1536, 1600, 2040, 2047, 2048, 2049, 2112, 2143, 3072};
  if (th) { for (i64 n = 496; n < 1200; n += 8) mid.push_back(n + (i64)(rng() % 8)); huge.insert(huge.end(), {2559, 2560, 3071, 3135, 4095, 4096, 4097, 4200, 5120, 6207, 8192, 8199}); } else mid.push_back(513 + rng() % 510);
  for (i64 n : mid) for (int cpu = 1; cpu < 9; cpu++) add(pcnt("pcnt", n, cpu, all, 0, true), 2); 
  for (i64 n : big) for (int cpu : {1, 2, 3, 5, 6, 7, 8}) add(pcnt("pcnt", n, cpu, all, 0, true), 3);
  for (i64 n : huge) for (int cpu : {1, 2, 3, 5}) add(pcnt("pcnt", n, cpu, Part{16, (int)(rng() % 16), 0}, rng() & 1, true), 4);
  // the helpers themselves, nothing by contract
  for (int cpu : {3, 5, 6}) for (i64 n : {512, 1024, 1056, 1600}) for (int col : {0, 1, 6, 31, 32, 63, (int)(rng() % 64)}) { add(pcnt("pcnt", n, cpu, Part{64, col, 0}, 0, false), 3); if (col == 6) add(pcnt("pcnt", n, cpu, Part{64, col, 0}, 1, false), 3); }
  for (int cpu : {3, 5}) for (i64 n : {520, 544, 560, 1025, 1056, 1088, 1120}) for (int col = 0; col < 8; col++) add(pcnt("pcnt", n, cpu, Part{8, col, n >= 1024 ? 1024 : 512}, 0, false), 3);
  for (int cpu : {3, 5}) for (i64 n : {512, 1024}) for (int k = 0; k < 8; k++) add(pcnt("pcnt", n, cpu, Part{16, (int)(k * 2 + rng() % 2), n - 64}, 0, false), 3);
}
