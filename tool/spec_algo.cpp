#include "spec.h"
using namespace llvm;
static i64 fldiv(i64 a, i64 b) { return a >= 0 ? a / b : -((-a + b - 1) / b); }
Pos norm(Pos p, int W) { i64 q = fldiv(p.b, W); p.w = p.w + Lin(q); p.b -= q * W; return p; }
std::string str(const Pos &p) { return str(p.w) + ":" + std::to_string(p.b); }
TmplP mkT(Bits b, bool hasJ) { auto t = std::make_shared<Tmpl>(); t->b = std::move(b); t->hasJ = hasJ; return t; }
Bits shifted(int r, int W, Lin dw, i64 db) { Bits v(W); for (int b = 0; b < W; b++) { i64 p = b + db, q = fldiv(p, W); v[b] = B.atom(r, Lin::var(J) + dw + Lin(q), p - q * W); } return v; }
Bits mirrored(int r, int W, Lin sw, i64 sb) { Bits v(W); for (int b = 0; b < W; b++) { i64 p = sb - b, q = fldiv(p, W); v[b] = B.atom(r, sw + Lin(q) - Lin::var(J), p - q * W); } return v; }
std::vector<Seg> original(Engine &E, State &s, int o) { const Obj &ob = E.obj(s, o); int W = ob.elem * 8; return {{Lin(0), ob.len, mkT(shifted(ob.region, W, Lin(0), 0), true), nullptr}}; }
// replaces [lo,hi) of the list by template t restricted to the bits in mask (other bits keep their old value)
static void put(Engine &E, State &s, std::vector<Seg> &v, const Lin &lo, const Lin &hi, const Bits &in, int b0, int b1) {
  if (!E.decideGE0(s, hi - lo - Lin(1))) return;
  std::vector<Seg> r;
  for (auto &g : v) {
    if (!E.decideGE0(s, g.hi - g.lo - Lin(1))) continue;
    if (!E.decideGE0(s, g.hi - lo - Lin(1)) || !E.decideGE0(s, hi - g.lo - Lin(1))) { r.push_back(g); continue; }
    Lin a = g.lo, b = g.hi; if (E.decideGE0(s, lo - a - Lin(1))) { r.push_back({a, lo, g.t, g.src}); a = lo; } bool tail = E.decideGE0(s, b - hi - Lin(1)); if (tail) b = hi;
    Bits n = g.t->b; for (int q = b0; q < b1; q++) n[q] = in[q]; r.push_back({a, b, mkT(n, true), g.src}); if (tail) r.push_back({hi, g.hi, g.t, g.src});
  }
  v = r;
}
std::vector<Seg> expectRange(Engine &E, State &s, int o, Pos lo, Pos hi, const Bits &in, bool, std::vector<Seg> base) {
  int W = E.obj(s, o).elem * 8; std::vector<Seg> v = base.empty() ? original(E, s, o) : base; lo = norm(lo, W); hi = norm(hi, W); lo.w = s.norm(lo.w); hi.w = s.norm(hi.w);
  Lin d = hi.w - lo.w; if (!E.decideGE0(s, d)) return v;
  if (E.decideEQ0(s, d)) { if (hi.b > lo.b) put(E, s, v, lo.w, lo.w + Lin(1), in, lo.b, hi.b); return v; }
  Lin a = lo.w; if (lo.b) { put(E, s, v, a, a + Lin(1), in, lo.b, W); a = a + Lin(1); }
  put(E, s, v, a, hi.w, in, 0, W); if (hi.b) put(E, s, v, hi.w, hi.w + Lin(1), in, 0, hi.b);
  return v;
}
bool checkObj(Engine &E, State &s, int o, std::vector<Seg> want, const RangeSpec *dst, const std::string &what) {
  const Obj &ob = E.obj(s, o); int W = ob.elem * 8; Engine::Mismatch mm; bool ok = E.segsEqual(s, ob.segs, want, Lin(0), ob.len, W, &mm);
  if (ok) { if (dst) E.oblige("value", true); E.oblige("frame", true); return true; }
  std::string kind = "frame";
  if (dst) { // is the offending bit inside the destination range?
    Pos lo = norm(dst->lo, W), hi = norm(dst->hi, W); Lin a = mm.lo - s.norm(lo.w), b = s.norm(hi.w) - mm.lo;
    bool in = E.decideGE0(s, a) && (!E.decideEQ0(s, a) || mm.bit >= lo.b) && E.decideGE0(s, b) && (!E.decideEQ0(s, b) || mm.bit < hi.b); if (in) kind = "value"; }
  E.oblige(kind, false);
  E.report(s, kind, mm.src, what + ": bit " + std::to_string(mm.bit) + " of word " + str(mm.lo) + " of " + ob.name + " becomes " + strNode(mm.got) + ", must be " + strNode(mm.want) + " (" + E.C->desc + ")");
  return false;
}
// ------------------------------------------------------------------ algorithms
namespace {
struct Rng { int fp, lp; int n0; };                      // first bit, last bit, words between (minimum)
const int RET = 1000;
struct B0 { // builder state of one case
  int W; int src = 0, dst = 0, third = 0, ret = 0; Lin n, k; 
};
}
static Val ptrTo(Engine &E, State &s, int o, const Lin &word) { return E.mkP(o, word * E.obj(s, o).elem); }
static void reg(State &s, int i, Val v) { s.st.back()->r[i] = std::move(v); }
// reads the iterator the entry point stored in the result slot
static bool retIter(Engine &E, State &s, int ret, int &obj, Pos &p, int W, std::string &why) {
  const Obj &r = E.obj(s, ret); auto a = r.cells.find(0), b = r.cells.find(8); if (a == r.cells.end() || b == r.cells.end() || a->second.v.k != VPtr) { why = "no iterator returned"; return false; }
  const Val &pv = b->second.v; if (pv.k != VLin) unk("returned position is data dependent");
  obj = a->second.v.obj; Lin off = a->second.v.l; int Eb = W / 8; for (auto &t : off.t) if (t.second % Eb) unk("returned word address"); 
  if (off.c % Eb) { why = "misaligned word address"; return false; } Lin w; w.c = off.c / Eb; for (auto &t : off.t) w.t.push_back({t.first, t.second / Eb}); 
  if (!pv.l.isConst()) { if (!E.decideGE0(s, pv.l) || !E.decideGE0(s, Lin(W - 1) - pv.l)) { why = "bit position out of the word"; return false; } unk("symbolic returned position"); }
  if (pv.l.c < 0 || pv.l.c >= W) { why = "bit position " + std::to_string(pv.l.c) + " is not inside the word"; return false; }
  p.w = w; p.b = pv.l.c; return true;
}
static void checkRet(Engine &E, State &s, int ret, int wantObj, Pos want, int W, const std::string &what) {
  int o; Pos p; std::string why; want = norm(want, W); want.w = s.norm(want.w);
  if (!retIter(E, s, ret, o, p, W, why)) { E.oblige("return", false); E.report(s, "return", E.obj(s, ret).cells.count(8) ? E.obj(s, ret).cells.at(8).src : nullptr, what + ": " + why + " (" + E.C->desc + ")"); return; }
  bool ok = o == wantObj && p.b == want.b && E.decideEQ0(s, p.w - want.w); E.oblige("return", ok);
  if (!ok) E.report(s, "return", E.obj(s, ret).cells.at(0).src, what + ": returned position " + E.obj(s, o).name + "[" + str(p) + "], must be " + E.obj(s, wantObj).name + "[" + str(want) + "] (" + E.C->desc + ")");
}
static void expectNoThrow(Engine &E, State &s) { E.oblige("no-exception", s.outcome == 1); if (s.outcome != 1) { E.report(s, "exception", s.throwSite, "operation terminates with " + s.outcomeWhy + " (" + E.C->desc + ")"); } }
static bool purity(Engine &E, State &s, std::vector<int> readOnly, const std::string &what) {
  bool ok = true; for (int o : readOnly) { bool w = std::find(s.objEvents.begin(), s.objEvents.end(), o) != s.objEvents.end(); E.oblige("read-only", !w); if (w) { ok = false; E.report(s, "read-only", nullptr, what + " writes to " + E.obj(s, o).name + " which it must only read (" + E.C->desc + ")"); } }
  bool g = false; for (int o : s.objEvents) if (E.obj(s, o).global) { g = true; E.report(s, "global-write", nullptr, what + " writes shared state " + E.obj(s, o).name); } E.oblige("no-shared-state", !g);
  return ok;
}
typedef std::function<void(Engine &, State &, B0 &)> SF;
struct AlgoSpec {
  std::string name; std::string group;
};
// one partition: everything concrete except (optionally) the word counts
struct Part { int W, fp, lp, dp = 0, mp = 0; i64 n = 0; bool symN = false; i64 k = 0; int kb = 0; bool symK = false; int v = 0; int align = 0, align2 = 0; int tp = 0; int place = 0; bool same = false; i64 g = 0; };
static std::string descP(const Part &p, const char *extra = "") { std::string s = "W=" + std::to_string(p.W) + " first=0:" + std::to_string(p.fp) + " last=" + (p.symN ? (p.n ? std::to_string(p.n) + "+N" : std::string("N")) : std::to_string(p.n)) + ":" + std::to_string(p.lp); return s + extra; }
// places a range of objects: words needed by a range starting at (0,b0) and ending at pos
static Lin wordsFor(Pos end) { return end.w + Lin(end.b > 0 ? 1 : 0); }
static Lin userParam(Engine &E, const char *nm) { int v = newParam(nm); E.C->params[nm] = v; return Lin::var(v); }
static Lin symN(Engine &E, const Part &p) { return p.symN ? Lin(p.n) + userParam(E, "N") : Lin(p.n); }
static int retObj(Engine &E, State &s) { return E.newObj(s, "result", false, 1, Lin(16)); }
static int wordObj(Engine &E, State &s, const char *nm, const Part &p, const Lin &len, int align) { int o = E.newObj(s, nm, true, p.W / 8, len); E.mut(s, o).align = align; return o; }

static Case binRange(const std::string &fn, const Part &p) { // copy, move, copy_backward, transform*, swap_ranges, equal
  Case c; c.W = p.W; c.fn = fn + "_" + std::to_string(p.W); c.group = fn; c.symbolic = p.symN;
  bool tr2 = fn == "transform2"; c.desc = descP(p, (" dest=0:" + std::to_string(p.dp) + (tr2 ? " second=0:" + std::to_string(p.tp) : "") + (p.align ? " align=" + std::to_string(p.align) : "") + (p.align2 ? " align2=" + std::to_string(p.align2) : "") + (p.same ? " same array, " + std::to_string(p.g) + " words apart" : "")).c_str());
  if (c.symbolic) c.concretise = [fn, p](const std::map<std::string, i64> &m) { Part q = p; q.symN = false; if (m.count("N")) q.n += m.at("N"); return binRange(fn, q); };
  auto b = std::make_shared<B0>(); b->W = p.W; Part q = p; bool back = fn == "copy_backward";
  // with `same` the two ranges lie in one array: the destination g words before (copy, move, transform) or after (copy_backward)
  i64 sw0 = q.same && !back ? q.g : 0, dw0 = q.same && back ? q.g : 0;
  c.setup = [=](Engine &E, State &s) {
    int W = q.W; b->n = symN(E, q); Pos last{b->n + Lin(sw0), q.lp}; Pos dend = norm(Pos{b->n + Lin(dw0), q.lp - q.fp + q.dp}, W), tend = norm(Pos{b->n, q.lp - q.fp + q.tp}, W);
    // an empty range at bit 0 needs no storage; otherwise the objects are exactly as long as the range
    auto need = [&](Pos e, int start) { Lin w = wordsFor(e); if (w.isConst() && w.c == 0 && start) w = Lin(1); return w; };
    Pos lastn = norm(last, W); 
    if (q.same) { b->src = b->dst = wordObj(E, s, "array", q, need(back ? dend : lastn, 1), q.align); }
    else { b->src = wordObj(E, s, "source", q, need(lastn, q.fp), q.align); b->dst = wordObj(E, s, "destination", q, need(dend, q.dp), q.align2); }
    if (fn == "transform2") b->third = wordObj(E, s, "second source", q, need(tend, q.tp), 0);
    b->ret = retObj(E, s); int i = 0; reg(s, i++, ptrTo(E, s, b->src, Lin(sw0))); reg(s, i++, E.mkC(q.fp, 64)); reg(s, i++, ptrTo(E, s, b->src, lastn.w)); reg(s, i++, E.mkC(lastn.b, 64));
    if (fn == "transform2") { reg(s, i++, ptrTo(E, s, b->third, Lin(0))); reg(s, i++, E.mkC(q.tp, 64)); }
    if (back) { reg(s, i++, ptrTo(E, s, b->dst, dend.w)); reg(s, i++, E.mkC(dend.b, 64)); } else { reg(s, i++, ptrTo(E, s, b->dst, Lin(dw0))); reg(s, i++, E.mkC(q.dp, 64)); }
    if (fn != "equal") reg(s, i++, E.mkP(b->ret, Lin(0)));
  };
  c.check = [=](Engine &E, State &s) {
    expectNoThrow(E, s); if (s.outcome != 1) return; int W = q.W; Lin n = s.norm(b->n); Pos lo{Lin(dw0), q.dp}, hi{n + Lin(dw0), q.lp - q.fp + q.dp}; RangeSpec rs{lo, hi}; int sr = E.obj(s, b->src).region, dr = E.obj(s, b->dst).region; std::string f = "bit::" + (fn.compare(0, 9, "transform") == 0 ? std::string("transform") : fn);
    if (fn == "equal") {
      bool res; Val r = s.ret; if (!E.isConst(r)) res = E.decideNode(s, E.toBits(r)[0]); else res = r.l.c & 1;
      purity(E, s, {b->src, b->dst}, f); checkObj(E, s, b->src, original(E, s, b->src), nullptr, f + " must not modify its operands"); checkObj(E, s, b->dst, original(E, s, b->dst), nullptr, f + " must not modify its operands");
      if (res) { // all corresponding bits must be known equal
        std::vector<Seg> none{{Lin(0), E.obj(s, b->dst).len, mkT(Bits(W, ~0u), false), nullptr}}; std::vector<Seg> want = expectRange(E, s, b->dst, lo, hi, shifted(sr, W, Lin(0), q.fp - q.dp), true, none);
        Engine::Mismatch mm; bool ok = E.segsEqual(s, original(E, s, b->dst), want, Lin(0), E.obj(s, b->dst).len, W, &mm); E.oblige("value", ok);
        if (!ok) E.report(s, "value", nullptr, f + " returns true although bit " + std::to_string(mm.bit) + " of word " + str(mm.lo) + " of the second range was not established equal to the first (" + E.C->desc + ")");
      } else { // some pair of corresponding bits must be known different
        std::vector<uint32_t> vs; for (auto &a : s.asg) { vs.push_back(a.first); B.support(a.second, vs); } for (Node x : s.resid) { std::vector<uint32_t> t; B.support(x, t); vs.insert(vs.end(), t.begin(), t.end()); }
        bool ok = false; State t = s;
        for (uint32_t v : vs) { VarDesc d = B.vars[v]; if (d.kind != VD_ATOM || (d.region != sr && d.region != dr)) continue; Pos sp; if (d.region == sr) sp = {d.idx, d.bit}; else sp = norm(Pos{d.idx, d.bit + q.fp - q.dp}, W); Pos dp2 = norm(Pos{sp.w, sp.b + q.dp - q.fp}, W);
          // inside the compared range?
          bool in = (E.proveGE0(s, sp.w - Lin(1)) || (E.proveGE0(s, sp.w) && sp.b >= q.fp)) && (E.proveGE0(s, n - sp.w - Lin(1)) || (E.proveGE0(s, n - sp.w) && sp.b < q.lp)); if (!in) continue;
          if (!E.addNode(t, B.Xnor(B.atom(sr, sp.w, sp.b), B.atom(dr, dp2.w, dp2.b)), true)) { ok = true; break; } }
        E.oblige("value", ok); if (!ok) E.report(s, "value", nullptr, f + " returns false although no difference inside the range was established (" + E.C->desc + ")");
      }
      return;
    }
    Bits in = shifted(sr, W, Lin(sw0 - dw0), q.fp - q.dp);
    if (fn == "transform1") for (auto &x : in) x = B.fun(1, {x}); if (fn == "transformnot") for (auto &x : in) x = B.Not(x);
    if (fn == "transform2") { Bits in2 = shifted(E.obj(s, b->third).region, W, Lin(0), q.tp - q.dp); for (int i = 0; i < W; i++) in[i] = B.fun(2, {in[i], in2[i]}); }
    checkObj(E, s, b->dst, expectRange(E, s, b->dst, lo, hi, in, true), &rs, f);
    if (fn == "swap_ranges") { RangeSpec r2{{Lin(0), q.fp}, {n, q.lp}}; checkObj(E, s, b->src, expectRange(E, s, b->src, r2.lo, r2.hi, shifted(dr, W, Lin(0), q.dp - q.fp), true), &r2, f); }
    else { if (!q.same) checkObj(E, s, b->src, original(E, s, b->src), nullptr, f + " must not modify its source"); if (b->third) checkObj(E, s, b->third, original(E, s, b->third), nullptr, f + " must not modify its second source"); }
    purity(E, s, fn == "swap_ranges" || q.same ? std::vector<int>{} : b->third ? std::vector<int>{b->src, b->third} : std::vector<int>{b->src}, f);
    checkRet(E, s, b->ret, b->dst, back ? lo : hi, W, f);
  };
  return c;
}
// is a difference of bit counts identically zero?  A single bit that changes it is a counterexample.
bool bitSumIsZero(Engine &E, State &s, const Lin &d) {
  bool bits = false, sums = false; for (auto &t : d.t) { if (gLV[t.first].kind == LV_BIT) bits = true; if (gLV[t.first].kind == LV_SUM) sums = true; }
  if (!bits && !sums) return E.decideEQ0(s, d);
  if (sums || !s.resid.empty()) unk("comparison of bit counts");
  for (auto &t : d.t) if (gLV[t.first].kind != LV_BIT) unk("comparison of bit counts with a size");
  std::vector<std::pair<Node, i64>> ns; std::set<uint32_t> vars; for (auto &t : d.t) { Node n = E.simp(s, gLV[t.first].node); ns.push_back({n, t.second}); std::vector<uint32_t> sv; B.support(n, sv); vars.insert(sv.begin(), sv.end()); }
  auto value = [&](uint32_t on, bool base) { i64 v = d.c; for (auto &p : ns) { Node n = p.first; while (n > 1) { const auto &q = B.n[n]; n = (q.var == on ? !base : base) ? q.hi : q.lo; } v += n ? p.second : 0; } return v; };
  for (bool base : {false, true}) { if (value(~0u, base)) return false; for (uint32_t v : vars) if (value(v, base)) return false; }
  unk("comparison of bit counts"); return true;
}
static Case unaryRange(const std::string &fn, const Part &p) { // fill, find, count, reverse, shift_left, shift_right, rotate
  Case c; c.W = p.W; c.fn = fn + "_" + std::to_string(p.W); c.group = fn; c.symbolic = p.symN || p.symK; bool sh = fn == "shift_left" || fn == "shift_right", val = fn == "fill" || fn == "find" || fn == "count", rot = fn == "rotate";
  std::string ex; if (val) ex = " value=" + std::to_string(p.v); if (sh) ex = " n=" + (p.symK ? std::string("K*") + std::to_string(p.W) + "+" : std::to_string(p.k * p.W) + "+") + std::to_string(p.kb); if (rot) ex = " middle=" + std::to_string(p.k) + ":" + std::to_string(p.mp); if (p.align) ex += " align=" + std::to_string(p.align);
  if (p.place) ex += " inside a larger array"; c.desc = descP(p, ex.c_str());
  if (c.symbolic) c.concretise = [fn, p](const std::map<std::string, i64> &m) { Part q = p; q.symN = q.symK = false; if (m.count("N")) q.n += m.at("N"); if (m.count("K")) q.k += m.at("K"); return unaryRange(fn, q); };
  auto b = std::make_shared<B0>(); b->W = p.W; Part q = p;
  c.setup = [=](Engine &E, State &s) {
    int W = q.W; b->n = symN(E, q); Lin len = b->n + Lin(q.lp > 0 ? 1 : 0); if (len.isConst() && len.c == 0 && q.fp) len = Lin(1);
    b->src = wordObj(E, s, "range", q, len, q.align); b->ret = retObj(E, s); int i = 0; reg(s, i++, ptrTo(E, s, b->src, Lin(0))); reg(s, i++, E.mkC(q.fp, 64)); 
    if (rot) { reg(s, i++, ptrTo(E, s, b->src, Lin(q.k))); reg(s, i++, E.mkC(q.mp, 64)); }
    reg(s, i++, ptrTo(E, s, b->src, b->n)); reg(s, i++, E.mkC(q.lp, 64));
    if (val) reg(s, i++, E.mkC(q.v, 8)); if (sh) { b->k = q.symK ? userParam(E, "K") + Lin(q.k) : Lin(q.k); reg(s, i++, E.mkL(b->k * W + Lin(q.kb), 64)); }
    if (fn == "find" || sh || rot) reg(s, i++, E.mkP(b->ret, Lin(0)));
  };
  c.check = [=](Engine &E, State &s) {
    expectNoThrow(E, s); if (s.outcome != 1) return; int W = q.W; Lin n = s.norm(b->n); Pos lo{Lin(0), q.fp}, hi{n, q.lp}; RangeSpec rs{lo, hi}; int sr = E.obj(s, b->src).region; std::string f = "bit::" + fn; Node v = q.v ? 1 : 0;
    if (fn == "fill") { checkObj(E, s, b->src, expectRange(E, s, b->src, lo, hi, Bits(W, v), false), &rs, f); purity(E, s, {}, f); return; }
    if (fn == "reverse") { checkObj(E, s, b->src, expectRange(E, s, b->src, lo, hi, mirrored(sr, W, n, q.fp + q.lp - 1), true), &rs, f); purity(E, s, {}, f); return; }
    if (fn == "find") {
      purity(E, s, {b->src}, f); checkObj(E, s, b->src, original(E, s, b->src), nullptr, f + " must not modify the range"); int o; Pos r; std::string why;
      if (!retIter(E, s, b->ret, o, r, W, why)) { E.oblige("return", false); E.report(s, "return", nullptr, f + ": " + why + " (" + E.C->desc + ")"); return; }
      Lin dw = n - r.w; bool le = o == b->src && E.decideGE0(s, dw), atEnd = false; if (le && E.decideEQ0(s, dw)) { le = r.b <= q.lp; atEnd = r.b == q.lp; } bool ge = E.decideGE0(s, r.w) && (!E.decideEQ0(s, r.w) || r.b >= q.fp);
      E.oblige("return", le && ge); const Instruction *src = E.obj(s, b->ret).cells.at(0).src; if (!le || !ge) { E.report(s, "return", src, f + ": returned position " + str(r) + " lies outside the range (" + E.C->desc + ")"); return; }
      std::vector<Seg> want{{Lin(0), E.obj(s, b->src).len, mkT(Bits(W, ~0u), false), nullptr}}; want = expectRange(E, s, b->src, lo, r, Bits(W, v ? 0 : 1), false, want); if (!atEnd) want = expectRange(E, s, b->src, r, Pos{r.w, r.b + 1}, Bits(W, v), false, want);
      Engine::Mismatch mm; bool ok = E.segsEqual(s, original(E, s, b->src), want, Lin(0), E.obj(s, b->src).len, W, &mm); E.oblige("value", ok);
      if (!ok) E.report(s, "value", src, f + ": returns " + str(r) + " although bit " + std::to_string(mm.bit) + " of word " + str(mm.lo) + " was not established to be " + (mm.want ? "1" : "0") + " (" + E.C->desc + ")");
      return;
    }
    if (fn == "count") {
      purity(E, s, {b->src}, f); checkObj(E, s, b->src, original(E, s, b->src), nullptr, f + " must not modify the range");
      Lin ones, total = n * W + Lin(q.lp - q.fp); auto addBits = [&](const Lin &w, int b0, int b1) { for (int i = b0; i < b1; i++) ones = ones + Lin::var(bitVar(E.simp(s, B.atom(sr, w, i)))); };
      if (E.decideEQ0(s, n)) addBits(Lin(0), q.fp, q.lp);
      else { Lin a(0); if (q.fp) { addBits(Lin(0), q.fp, W); a = Lin(1); } addBits(n, 0, q.lp);
        if (n.isConst()) for (i64 w = a.c; w < n.c; w++) addBits(Lin(w), 0, W); else { extern Lin sumVar(Engine &, int region, const Lin &lo, const Lin &hi); if (!E.decideEQ0(s, n - a)) ones = ones + sumVar(E, sr, a, n); } }
      Lin want = q.v ? ones : total - ones; bool ok; std::string got;
      if (s.ret.k == VLin) { Lin d = s.ret.l - want; ok = d.isConst() ? d.c == 0 : bitSumIsZero(E, s, d); got = str(s.ret.l); } else { Bits x = E.toBits(s.ret), y = E.linBits(want, 64); ok = true; for (int i = 0; i < 64; i++) if (!E.nodeEq(s, x[i], y[i])) ok = false; got = "a different function of the bits"; }
      E.oblige("value", ok); if (!ok) E.report(s, "value", nullptr, f + ": result is " + got + ", must be " + str(want) + " (" + E.C->desc + ")");
      return;
    }
    if (sh) {
      Lin k = s.norm(b->k); Lin nb = k * W + Lin(q.kb), d = n * W + Lin(q.lp - q.fp); Pos moved{n - k, q.lp - q.kb}; bool left = fn == "shift_left";
      purity(E, s, {}, f);
      if (!E.decideGE0(s, nb - Lin(1))) { checkObj(E, s, b->src, original(E, s, b->src), nullptr, f + " by a non-positive count must change nothing"); checkRet(E, s, b->ret, b->src, left ? hi : lo, W, f); return; }
      std::vector<Seg> want = expectRange(E, s, b->src, lo, hi, Bits(W, ~0u), false); 
      if (!E.decideGE0(s, nb - d)) { Pos a = left ? lo : Pos{k, q.fp + q.kb}, e = left ? moved : hi; Bits in = left ? shifted(sr, W, k, q.kb) : shifted(sr, W, k * -1, -q.kb); want = expectRange(E, s, b->src, a, e, in, true, want); checkRet(E, s, b->ret, b->src, left ? moved : Pos{k, q.fp + q.kb}, W, f); }
      else checkRet(E, s, b->ret, b->src, left ? lo : hi, W, f);
      checkObj(E, s, b->src, want, &rs, f); return;
    }
    if (rot) { // concrete sizes
      purity(E, s, {}, f); i64 F = q.fp, M = q.k * W + q.mp, L = n.c * W + q.lp, len = L - F, m = M - F; std::vector<Seg> want;
      for (i64 w = 0; w < E.obj(s, b->src).len.c; w++) { Bits v(W); for (int i = 0; i < W; i++) { i64 g = w * W + i, src = g; if (g >= F && g < L) src = F + (g - F + m) % len; v[i] = B.atom(sr, Lin(src / W), src % W); } want.push_back({Lin(w), Lin(w + 1), mkT(v, false), nullptr}); }
      checkObj(E, s, b->src, want, &rs, f); checkRet(E, s, b->ret, b->src, norm(Pos{Lin(0), (int)(F + L - M)}, W), W, f); return;
    }
  };
  return c;
}
// ------------------------------------------------------------------ partitions
static std::vector<int> corners(int W, int lvl) { std::vector<int> v; if (W == 8) { for (int i = 0; i < 8; i++) v.push_back(i); return v; }
  std::set<int> s; if (lvl == 0) s = {0, 1, W / 2, W - 1}; else if (lvl == 1) s = {0, 1, W / 2 - 1, W / 2, W - 2, W - 1}; else { s = {0, 1, 2, 3, W / 4, W / 2 - 1, W / 2, W / 2 + 1, W - 3, W - 2, W - 1}; if (W == 16) for (int i = 0; i < 16; i++) s.insert(i); } return std::vector<int>(s.begin(), s.end()); }
void buildAlgo(Suite &out, const Opts &o) {
  std::mt19937_64 rng(o.seed * 7919 + 17); bool th = o.tier == "thorough"; std::string fn = o.suite; bool hwy = o.cfg == "hwy", overlap = false;
  size_t us = fn.find("_overlap"); if (us != std::string::npos) { overlap = true; fn = fn.substr(0, us); }
  bool curPrio = false; int curHeavy = 1;
  auto add = [&](Case c, std::function<std::vector<Case>()> fb = nullptr) { out.push_back({c, fb, curPrio, curHeavy}); };
  bool two = fn == "copy" || fn == "move" || fn == "copy_backward" || fn == "swap_ranges" || fn == "equal" || fn.compare(0, 9, "transform") == 0;
  bool sh = fn == "shift_left" || fn == "shift_right", un = fn == "fill" || fn == "find" || fn == "count" || fn == "reverse";
  bool vec = hwy && (fn == "fill" || fn == "find" || fn == "transformnot" || sh || fn == "reverse");
  typedef std::function<Case(const Part &)> Mk;
  for (int W : {8, 16, 32, 64}) { if (o.W && W != o.W) continue;
    int lanes = o.vec / W, linew = 512 / W;              // vector lanes, words per 64-byte line
    std::vector<int> cs = corners(W, 1), all; for (int i = 0; i < W; i++) all.push_back(i); std::set<int> cset(cs.begin(), cs.end()); if (W == 8) cset = {0, 1, 4, 7};
    // partition cube over k bit positions: complete when it is small, else its corners plus random members
    auto cube = [&](int k, long rnd, bool full, const std::function<void(const std::vector<int> &, bool)> &f) {
      std::vector<int> v(k, 0), base = full ? all : cs; std::vector<size_t> ix(k, 0);
      for (;;) { bool pr = true; for (int i = 0; i < k; i++) { v[i] = base[ix[i]]; pr = pr && cset.count(v[i]); } f(v, pr); int i = 0; while (i < k && ++ix[i] == base.size()) ix[i++] = 0; if (i == k) break; }
      if (!full) for (long r = 0; r < rnd; r++) { for (int i = 0; i < k; i++) v[i] = rng() % W; f(v, false); }
    };
    // unbounded word count, with bounded word counts to fall back on
    auto withN = [&](Part p, const Mk &mk) {
      i64 lo = p.lp < p.fp ? 1 : 0; 
      if (!vec) { Part ps = p; ps.n = lo; ps.symN = true; add(mk(ps), [p, W, mk] { std::vector<Case> fb; for (i64 n : {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 31, 33, 34, 66}) { Part c = p; c.n = n; if (n * W + p.lp < p.fp) continue; fb.push_back(mk(c)); } return fb; }); return; }
      // vector code: the base address residue decides how many words precede the first vector
      int wb = W / 8; auto fbk = [p, W, mk] { std::vector<Case> fb; for (i64 n : {0, 1, 2, 3, 5, 8, 9, 16, 17, 33, 66}) { Part c = p; c.n = n; if (n * W + p.lp < p.fp) continue; fb.push_back(mk(c)); } return fb; };
      if (fn == "fill" || fn == "transformnot" || (fn == "find" && W > 8 && o.vec == 128)) { Part c = p; c.n = lo; c.symN = true; c.align = (64 - wb * (int)(rng() % (rng() % 4 ? 4 : linew))) % 64; c.align2 = rng() % 3 ? c.align : (int)((64 - wb * (rng() % 3)) % 64); int h0 = curHeavy; if (fn == "find") curHeavy *= 16; add(mk(c), fbk); curHeavy = h0; }
      { Part c = p; c.n = rng() % 4; c.align = (64 - wb * (int)(rng() % 4)) % 64; if (c.n * W + p.lp >= p.fp) add(mk(c)); }
      if (rng() % 6 == 0 && fn != "find") { Part c = p; c.n = 40 + rng() % 110; c.align = (64 - wb * (int)(rng() % linew)) % 64; c.align2 = c.align; add(mk(c)); }
      std::set<i64> big = {lanes, lanes + 1, 2 * lanes + 1, 3 * lanes + 2, linew + 1, linew + lanes + 2}; int keep = th ? 6 : 3; 
      for (int i = 0; i < keep; i++) { auto it = big.begin(); std::advance(it, rng() % big.size()); Part c = p; c.n = *it + rng() % 2; c.align = (64 - wb * (int)(rng() % (i % 2 ? std::min(linew, 4) : linew))) % 64; c.align2 = i % 3 ? c.align : (int)((64 - wb * (rng() % 3)) % 64); big.erase(it); add(mk(c)); }
    };
    if (two) {
      bool heavy = fn == "equal", tr = fn.compare(0, 9, "transform") == 0; if (heavy) curHeavy = W == 64 ? 32 : W == 32 ? 8 : W == 16 ? 4 : 1;
      cube(3, th ? 20000 : 6000, W <= 16 || (W == 32 && !heavy && fn != "transform2" && (th || !overlap)), [&](const std::vector<int> &v, bool pr) {
        Part p{W, v[0], v[1], v[2]}; curPrio = pr; std::vector<Part> ps{p};
        if (fn == "transform2") { ps.clear(); std::vector<int> ts = W == 8 && th ? all : std::vector<int>{p.fp, p.dp, (int)(rng() % W), W - 1}; std::set<int> st(ts.begin(), ts.end()); for (int t : st) { Part x = p; x.tp = t; ps.push_back(x); } }
        if (overlap) {
          std::vector<Part> q;
          for (auto &x : ps) if (tr) { x.same = true; x.dp = x.fp; x.g = 0; q.push_back(x); } else for (i64 g = 0; g <= 2; g++) { i64 d = fn == "copy_backward" ? g * W + p.dp - p.fp : g * W + p.fp - p.dp; if (d < 1) continue; Part y = x; y.same = true; y.g = g; q.push_back(y); }
          if (tr && v[2]) q.clear(); ps = q; }
        for (auto &x : ps) withN(x, [fn2 = fn](const Part &q) { return binRange(fn2, q); }); });
    } else if (un) {
      bool heavy = fn == "find"; curHeavy = fn == "reverse" ? (W == 64 ? 6 : W == 32 ? 3 : 1) : !heavy ? 1 : W == 64 ? 512 : W == 32 ? 128 : W == 16 ? 12 : 3; if (vec) curHeavy = !heavy ? 1 : W >= 32 ? 16 : W == 16 ? 6 : 4;
      cube(2, 0, true, [&](const std::vector<int> &c, bool pr) { for (int v = 0; v < (fn == "reverse" ? 1 : 2); v++) { Part p{W, c[0], c[1]}; p.v = v; curPrio = pr; withN(p, [fn2 = fn](const Part &q) { return unaryRange(fn2, q); }); } });
    } else if (sh) {
      curPrio = true; for (int kb : {W - 1, 0}) { Part p{W, 1, W - 1}; p.n = 1; p.k = -1; p.kb = kb; add(unaryRange(fn, p)); }
      cube(3, th ? 20000 : 6000, W <= 32, [&](const std::vector<int> &c, bool pr) {
        Part p{W, c[0], c[1]}; p.kb = c[2]; p.n = p.lp < p.fp ? 1 : 0; curPrio = pr;
        if (vec) { int wb = W / 8; if (fn == "shift_left") { Part q = p; q.symN = q.symK = true; q.align = (64 - wb * (int)(rng() % (rng() % 4 ? 4 : linew))) % 64; curHeavy = 4; add(unaryRange(fn, q), [p, W, fn2 = fn] { std::vector<Case> fb; for (int n : {0, 1, 2, 3, 4, 9, 17, 35}) for (int k = 0; k <= n + 1; k += n > 4 ? 5 : 1) { if (n * W + p.lp < p.fp) continue; Part c = p; c.n = n; c.k = k; fb.push_back(unaryRange(fn2, c)); } return fb; }); curHeavy = 1; }
          if (rng() % 8 == 0) { Part c = p; c.n = p.n + 30 + rng() % 120; c.k = rng() % 4 ? (i64)(rng() % 5) : (i64)(rng() % (c.n + 1)); c.align = (64 - wb * (int)(rng() % linew)) % 64; add(unaryRange(fn, c)); }
          for (int i = 0; i < (th ? 4 : 2); i++) { Part c = p; c.n = p.n + (i == 0 ? (i64)(rng() % 4) : (i64)(rng() % (linew + 2 * lanes + 3))); i64 w = c.n; c.k = i % 2 ? (i64)(rng() % 3) : (i64)(rng() % (w + 1)); c.align = (64 - wb * (int)(rng() % (i % 2 ? 4 : linew))) % 64; add(unaryRange(fn, c)); } return; }
        Part q = p; q.symN = q.symK = true; add(unaryRange(fn, q), [p, W, fn2 = fn] { std::vector<Case> fb; for (int n : {0, 1, 2, 3, 4, 5, 8, 9, 17}) for (int k = 0; k <= n + 1; k += n > 4 ? 3 : 1) { if (n * W + p.lp < p.fp) continue; Part c = p; c.n = n; c.k = k; fb.push_back(unaryRange(fn2, c)); } return fb; }); });
    } else if (fn == "rotate") {
      int maxn = th ? 4 : 2; 
      if (W == 8) { for (int L = 0; L <= (maxn + (th ? 0 : 1)) * 8; L++) for (int fp = 0; fp < 8 && fp <= L; fp++) { int step = th ? 1 : (L > 16 ? 3 : 1); for (int m = fp + (step > 1 ? (int)(rng() % step) : 0); m <= L; m += step) { Part p{8, fp, L % 8}; p.n = L / 8; p.k = m / 8; p.mp = m % 8; add(unaryRange(fn, p)); } } }
      else for (int n = 0; n <= maxn; n++) { std::vector<int> c1 = corners(W, th ? 1 : 0); for (int fp : c1) for (int lp : c1) { i64 L = n * W + lp; if (L < fp) continue; std::set<i64> ms = {fp, fp + 1, fp + (L - fp) / 2, L - 1, L, (fp + L / W * W) / 2}; for (i64 x = W; x <= L; x += W) ms.insert(x); for (int i = 0; i < (th ? 6 : 2); i++) ms.insert(fp + rng() % (L - fp + 1)); for (i64 m : ms) { if (m < fp || m > L) continue; Part p{W, fp, lp}; p.n = n; p.k = m / W; p.mp = m % W; add(unaryRange(fn, p)); } } }
      // long ranges reach the block-swap path with many swaps
      int big = th ? 3000 : 400; for (int i = 0; i < big; i++) { i64 n = 3 + rng() % (i % 4 == 0 ? 40 : W == 8 ? 12 : 6); int fp = rng() % W, lp = rng() % W; i64 L = n * W + lp, m = i % 5 == 0 ? fp + 1 + rng() % W : i % 5 == 1 ? L - 1 - rng() % W : fp + rng() % (L - fp + 1); if (m < fp || m > L) continue; Part p{W, fp, lp}; p.n = n; p.k = m / W; p.mp = m % W; add(unaryRange(fn, p)); }
    }
    curPrio = false; curHeavy = 1;
  }
}
