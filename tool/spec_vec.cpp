// Specification of bit_vector: what every operation leaves behind, observed
// through the public interface (vp_obs, vp_ret, vp_bit and vp_val in
// harness/vec.cpp) for an arbitrary vector of N words less j bits.
#include "spec.h"
using namespace llvm;
namespace {
struct Piece { Pos lo, hi; Bits in; };
struct Model { Lin size; std::vector<Piece> pc; };       // length in bits and its contents
struct VB { int W = 8, src = 0, src2 = 0; Lin n, S, d, e, c, n2, f, l; };
struct VPart {
  std::string op; int W = 8, j = 0, db = 0, eb = 0, kb = 0, lb = 0, v = 0, m = 0, cap = 0, how = 0; bool x = false, arm = false, oob = false, sym = true;
  std::map<std::string, i64> val; std::string text; bool symText = false;
};
typedef std::function<Model(Engine &, State &)> MF;
}
static const State *normBy = nullptr;                    // parameters re-split on the current path
static Pos posOf(const Lin &bits0, int W) { Pos p; Lin bits = normBy ? normBy->norm(bits0) : bits0; i64 c = bits.c; Lin w; for (auto &t : bits.t) { if (t.second % W) unk("bit offset is not a word count plus a constant"); w.t.push_back({t.first, t.second / W}); } i64 q = c >= 0 ? c / W : -((-c + W - 1) / W); w.c = q; p.w = w; p.b = c - q * W; return p; }
static bool is(const std::string &op, std::initializer_list<const char *> l) { for (auto x : l) if (op == x) return true; return false; }
static Bits valueBits(int W, int v) { return Bits(W, v ? 1 : 0); }
// source bits displaced by `by` bits: element J bit b is bit J*W+b+by of the region
static Bits moved(int region, int W, const Lin &by) { Pos p = posOf(by, W); return shifted(region, W, p.w, p.b); }
static void addPiece(Model &m, int W, const Lin &lo, const Lin &hi, Bits in) { m.pc.push_back({posOf(lo, W), posOf(hi, W), std::move(in)}); }
static Case vecCase(const VPart &q);
static void checkModel(Engine &E, State &s, const Model &m0, std::vector<Val> &a, int W, const std::string &what) {
  const std::string sfx = " (" + E.C->desc + ")"; Lin want = s.norm(m0.size); if (a[2].k != VLin) unk("size is data dependent");
  Lin size = a[2].l; bool okS = E.decideEQ0(s, size - want); E.oblige("size", okS); if (!okS) { E.report(s, "size", s.throwSite, what + ": size() is " + str(size) + ", must be " + str(want) + sfx); s.stuck = true; return; }
  bool zero = E.decideEQ0(s, want); want = s.norm(want);
  { bool em; if (E.isConst(a[6])) em = a[6].l.c & 1; else em = E.decideNode(s, E.toBits(a[6])[0]); E.oblige("empty", em == zero); if (em != zero) E.report(s, "size", nullptr, what + ": empty() is wrong" + sfx); }
  Pos e = posOf(want, W);
  auto sameWord = [&](const Val &p, const Val &base, const Lin &words) { if (p.k != VPtr || base.k != VPtr) unk("iterator is not an address"); return p.obj == base.obj && E.decideEQ0(s, p.l - base.l - words * (W / 8)); };
  { bool ok = sameWord(a[4], a[1], e.w) && a[5].k == VLin && a[5].l == Lin(e.b); E.oblige("end", ok); if (!ok) E.report(s, "return", nullptr, what + ": end() - begin() differs from size()" + sfx); }
  if (a[3].k != VLin) unk("capacity is data dependent"); { bool ok = E.decideGE0(s, a[3].l - want); E.oblige("capacity", ok); if (!ok) E.report(s, "capacity", nullptr, what + ": capacity() is smaller than size()" + sfx); }
  if (zero) return;
  if (a[1].k != VPtr || !a[1].obj) { E.oblige("storage", false); E.report(s, "storage", nullptr, what + ": no storage behind a non-empty vector" + sfx); return; }
  const Obj &ob = E.obj(s, a[1].obj);
  if (!ob.alive) { E.oblige("storage", false); E.report(s, "use-after-free", nullptr, what + ": the vector refers to released storage" + sfx); return; }
  if (!ob.words) unk("vector storage is not an array of words");
  { bool ok = a[1].l == Lin(0) && E.decideGE0(s, ob.len * W - want); E.oblige("storage", ok); if (!ok) { E.report(s, "storage", nullptr, what + ": the storage has " + str(ob.len) + " words for " + str(want) + " bits" + sfx); return; } }
  { bool ok = E.decideGE0(s, ob.len * W - a[3].l); E.oblige("capacity", ok); if (!ok) E.report(s, "capacity", nullptr, what + ": capacity() is " + str(a[3].l) + " but only " + str(ob.len) + " words are allocated" + sfx); }
  { bool ok = a[7].k == VPtr && sameWord(a[7], a[1], Lin(0)); E.oblige("data", ok); if (!ok) E.report(s, "storage", nullptr, what + ": data() is not the first word" + sfx); }
  std::vector<Seg> exp{{Lin(0), ob.len, mkT(Bits(W, ~0u), false), nullptr}};
  for (auto &p : m0.pc) exp = expectRange(E, s, a[1].obj, Pos{s.norm(p.lo.w), p.lo.b}, Pos{s.norm(p.hi.w), p.hi.b}, p.in, true, exp);
  RangeSpec rs{Pos{Lin(0), 0}, e}; checkObj(E, s, a[1].obj, exp, &rs, what);
}
static Case vecCase(const VPart &q) {
  Case c; c.W = q.W; c.group = q.op; c.fn = (q.x ? "x" : "") + q.op + "_" + std::to_string(q.W); c.symbolic = q.sym; int W = q.W; const std::string &op = q.op;
  bool ctor = op.compare(0, 4, "ctor") == 0, hasD = is(op, {"insert1", "insertn", "insertr", "erase1", "eraser", "at", "atc", "index", "indexc", "store", "flipat", "constread", "copyctor", "copyctora", "copyassign", "erasepush", "eraseinsert"});
  bool hasE = is(op, {"eraser", "erasepush", "eraseinsert"}), strict = is(op, {"erase1", "at", "atc", "index", "indexc", "store", "flipat", "constread", "copyctor", "copyctora", "copyassign"}), nonempty = is(op, {"popback", "front", "frontc", "back", "backc"});
  bool hasC = is(op, {"insertn", "resize", "resizev", "reserve", "resizeback", "eraseinsert", "ctorcount", "ctorcountv"}), src2 = is(op, {"insertr", "moveassign", "copyassign"});
  { std::string s = "W=" + std::to_string(W); if (!ctor) s += " vector of N words less " + std::to_string(q.j) + " bits" + (q.x ? " in larger storage" : ""); if (hasD) s += " position D:" + std::to_string(q.db) + (q.oob ? " past the end" : ""); if (hasE) s += " to :" + std::to_string(q.eb); if (hasC) s += " count K:" + std::to_string(q.kb); if (is(op, {"insertr", "ctorbits"})) s += " range " + std::to_string(q.lb) + ".." + std::to_string(q.kb); if (q.cap) s += " reserved " + std::to_string(q.cap); if (q.m) s += " times " + std::to_string(q.m); if (q.arm) s += " allocation may fail"; if (!q.text.empty()) s += " \"" + q.text + "\""; if (!q.sym) { for (auto &p : q.val) s += " " + p.first + "=" + std::to_string(p.second); } c.desc = s; }
  if (q.sym) c.concretise = [q](const std::map<std::string, i64> &m) { VPart r = q; r.sym = false; r.val = m; return vecCase(r); };
  auto b = std::make_shared<VB>(); auto models = std::make_shared<std::map<int, MF>>();
  c.setup = [=](Engine &E, State &s) {
    auto par = [&](const char *nm) { if (!q.sym) return Lin(q.val.count(nm) ? q.val.at(nm) : 0); int v = newParam(nm); E.C->params[nm] = v; Lin l = Lin::var(v); E.addGe(s, Lin((i64)1 << 40) - l); return l; };
    auto reg = [&](int i, Val v) { s.st.back()->r[i] = std::move(v); };
    auto words = [&](const char *nm, const Lin &len) { int o = E.newObj(s, nm, true, W / 8, len); return o; };
    normBy = nullptr; s.allocBudget = -1; b->W = W; int i = 0; models->clear();
    Lin D, Ew; i64 k0 = 0;
    auto full = [](Model &m, int W, int region, const Lin &S) { addPiece(m, W, Lin(0), S, moved(region, W, Lin(0))); };
    if (ctor) {
      int arm = q.arm;
      if (op == "ctorwords") { Lin n = par("N"); b->src = words("words", n); reg(i++, E.mkP(b->src, Lin(0))); reg(i++, E.mkL(n, 64)); reg(i++, E.mkC(arm, 8)); int r = E.obj(s, b->src).region; (*models)[1] = [=](Engine &, State &) { Model m; m.size = n * W; full(m, W, r, m.size); return m; }; }
      else if (op == "ctorcount" || op == "ctorcountv") { Lin k = par("K") * W + Lin(q.kb); reg(i++, E.mkL(k, 64)); if (op == "ctorcountv") reg(i++, E.mkC(q.v, 8)); reg(i++, E.mkC(arm, 8)); int v = op == "ctorcountv" ? q.v : 0; (*models)[1] = [=](Engine &, State &) { Model m; m.size = k; addPiece(m, W, Lin(0), k, valueBits(W, v)); return m; }; }
      else if (op == "ctorbits") { Lin k = par("K") + Lin(q.kb < q.lb ? 1 : 0); Lin e = k * W + Lin(q.kb); b->src = words("bits", k + Lin(q.kb ? 1 : 0)); reg(i++, E.mkP(b->src, Lin(0))); reg(i++, E.mkC(q.lb, 64)); reg(i++, E.mkL(e, 64)); reg(i++, E.mkC(arm, 8)); int r = E.obj(s, b->src).region; (*models)[1] = [=](Engine &, State &) { Model m; m.size = e - Lin(q.lb); addPiece(m, W, Lin(0), m.size, moved(r, W, Lin(q.lb))); return m; }; }
      else if (op == "ctorbool" || op == "ctorilb" || op == "ctorilv") { int n = op == "ctorbool" ? q.m : 3; int o = E.newObj(s, "bools", true, 1, Lin(n)); int r = E.obj(s, o).region; Obj &ob = E.mut(s, o); Bits t(8, 0); t[0] = B.atom(r, Lin::var(J), 0); ob.segs = {{Lin(0), Lin(n), mkT(t, true), nullptr}}; if (!q.text.empty()) { ob.segs.clear(); for (int k = 0; k < n; k++) { Bits u(8, 0); u[0] = q.text[k] == '1'; ob.segs.push_back({Lin(k), Lin(k + 1), mkT(u, false), nullptr}); } } b->src = o; reg(i++, E.mkP(o, Lin(0))); if (op == "ctorbool") { reg(i++, E.mkC(n, 64)); reg(i++, E.mkC(arm, 8)); }
        (*models)[1] = [=](Engine &, State &) { Model m; m.size = Lin(n); for (int k = 0; k < n; k++) addPiece(m, W, Lin(k), Lin(k + 1), q.text.empty() ? Bits(W, B.atom(r, Lin(k), 0)) : valueBits(W, q.text[k] == '1')); return m; }; }
      else if (op == "ctorilw") { b->src = words("words", Lin(3)); reg(i++, E.mkP(b->src, Lin(0))); int r = E.obj(s, b->src).region; (*models)[1] = [=](Engine &, State &) { Model m; m.size = Lin(3 * W); full(m, W, r, m.size); return m; }; }
      else if (op == "ctordef") { reg(i++, E.mkC(q.v, 8)); (*models)[1] = [=](Engine &, State &) { return Model(); }; int v = q.v; (*models)[2] = [=](Engine &, State &) { Model m; m.size = Lin(1); addPiece(m, W, Lin(0), Lin(1), valueBits(W, v)); return m; }; }
      else if (op == "ctorstr") { int n = q.symText ? q.m : (int)q.text.size(); int o = E.newObj(s, "characters", true, 1, Lin(n)); int r = E.obj(s, o).region; if (!q.symText) { Obj &ob = E.mut(s, o); ob.segs.clear(); for (int k = 0; k < n; k++) { Bits t(8); for (int z = 0; z < 8; z++) t[z] = (q.text[k] >> z) & 1; ob.segs.push_back({Lin(k), Lin(k + 1), mkT(t, false), nullptr}); } }
        b->src = o; reg(i++, E.mkP(o, Lin(0))); reg(i++, E.mkC(n, 64)); reg(i++, E.mkC(arm, 8));
        (*models)[1] = [=](Engine &E2, State &s2) { Model m; i64 len = 0; for (int k = 0; k < n; k++) { int v = -1; if (!q.symText) v = q.text[k] == '0' ? 0 : q.text[k] == '1' ? 1 : -1; else { auto eq = [&](char ch) { Node x = 1; for (int z = 0; z < 8; z++) { Node at = B.atom(r, Lin(k), z); x = B.And(x, (ch >> z) & 1 ? at : B.Not(at)); } return E2.decideNode(s2, x); }; v = eq('0') ? 0 : eq('1') ? 1 : -1; } if (v < 0) continue; addPiece(m, W, Lin(len), Lin(len + 1), valueBits(W, v)); len++; } m.size = Lin(len); return m; }; }
      else unk("unknown constructor case " + op);
      return;
    }
    // ---- the vector under test
    i64 need = q.j; if (hasD) { D = q.oob ? Lin(0) : par("D"); need += hasE ? 0 : q.db + (strict ? 1 : 0); if (hasE) { k0 = q.eb < q.db ? 1 : 0; Ew = D + par("K") + Lin(k0); need += q.eb; } else Ew = D; } else if (nonempty) need += 1;
    if (q.oob) need = q.j; i64 n0 = (need + W - 1) / W; 
    bool fixedN = hasD && !q.oob; Lin n = (fixedN ? Ew + par("M") : par("N")) + Lin(n0); Lin S = n * W - Lin(q.j);
    b->n = n; b->S = S; b->src = words("words", n); int r = E.obj(s, b->src).region;
    reg(i++, E.mkP(b->src, Lin(0))); reg(i++, E.mkL(n, 64)); reg(i++, E.mkC(q.j | q.how << 8, 64));
    Lin cnt = hasC ? (par(op == "eraseinsert" ? "C" : hasE ? "C" : "K") * W + Lin(q.kb)) : Lin(0);
    reg(i++, E.mkL(q.cap == 0 ? Lin(0) : q.cap == 1 ? n * W + Lin(W) : S + cnt + Lin(3 * W), 64)); reg(i++, E.mkC(q.arm, 8));
    Lin d = q.oob ? S + par("D") * W + Lin(q.db) : D * W + Lin(q.db), e = Ew * W + Lin(q.eb); b->d = d; b->e = e; b->c = cnt;
    if (hasD) reg(i++, E.mkL(d, 64)); if (hasE) reg(i++, E.mkL(e, 64));
    int r2 = 0; Lin f, l, n2;
    if (src2) { n2 = op == "insertr" ? par("K") + Lin((q.lb > q.kb ? 1 : 0)) : par("K"); Lin len = op == "insertr" ? n2 + Lin(q.kb ? 1 : 0) : n2; b->src2 = words("other words", len); r2 = E.obj(s, b->src2).region; Val pv = E.mkP(b->src2, Lin(0)), nv = E.mkL(len, 64); b->n2 = len;
      if (op == "copyassign") { Val dv = s.st.back()->r[i - 1]; reg(i - 1, pv); reg(i++, nv); reg(i++, dv); } else { reg(i++, pv); reg(i++, nv); }
      if (op == "insertr") { f = Lin(q.lb); l = n2 * W + Lin(q.kb); b->f = f; b->l = l; reg(i++, E.mkL(f, 64)); reg(i++, E.mkL(l, 64)); } }
    if (hasC) reg(i++, E.mkL(cnt, 64));
    if (op == "resizeback") { e = par("E") * W + Lin(q.eb); b->e = e; reg(i++, E.mkL(e, 64)); }
    if (is(op, {"pushback", "insert1", "insertn", "resizev", "clear", "store", "movector", "movectora", "moveassign", "pushpop", "erasepush", "eraseinsert", "shrinkpush"})) reg(i++, E.mkC(q.v, 8));
    if (op == "pushpop") reg(i++, E.mkC(q.m, 64));
    auto orig = [=](Engine &, State &) { Model m; m.size = S; full(m, W, r, S); return m; };
    (*models)[9] = orig; auto &M = *models; int v = q.v, bm = q.m;
    auto with = [=](std::function<void(Model &)> g) { return [=](Engine &, State &) { Model m; g(m); return m; }; };
    auto one = with([=](Model &m) { m.size = Lin(1); addPiece(m, W, Lin(0), Lin(1), valueBits(W, v)); });
    auto inserted = [=](const Lin &at, const Lin &cn, std::function<Bits()> in) { return with([=](Model &m) { m.size = S + cn; addPiece(m, W, Lin(0), at, moved(r, W, Lin(0))); addPiece(m, W, at, at + cn, in()); addPiece(m, W, at + cn, S + cn, moved(r, W, cn * -1)); }); };
    if (op == "pushback" || op == "shrinkpush") M[1] = with([=](Model &m) { m.size = S + Lin(1); full(m, W, r, S); addPiece(m, W, S, S + Lin(1), valueBits(W, v)); });
    else if (op == "popback") M[1] = with([=](Model &m) { m.size = S - Lin(1); full(m, W, r, m.size); });
    else if (op == "insert1") M[1] = inserted(d, Lin(1), [=] { return valueBits(W, v); });
    else if (op == "insertn") M[1] = inserted(d, cnt, [=] { return valueBits(W, v); });
    else if (op == "insertr") { M[1] = inserted(d, l - f, [=] { return moved(r2, W, f - d); }); Lin len = b->n2; M[2] = with([=](Model &m) { m.size = len * W; full(m, W, r2, m.size); }); }
    else if (op == "erase1" || op == "eraser") { Lin cn = op == "erase1" ? Lin(1) : e - d; M[1] = with([=](Model &m) { m.size = S - cn; addPiece(m, W, Lin(0), d, moved(r, W, Lin(0))); addPiece(m, W, d, m.size, moved(r, W, cn)); }); }
    else if (op == "resize" || op == "resizev") { int vv = op == "resize" ? 0 : v; M[1] = [=](Engine &E2, State &s2) { Model m; m.size = cnt; if (E2.decideGE0(s2, s2.norm(cnt - S))) { full(m, W, r, S); addPiece(m, W, S, cnt, valueBits(W, vv)); } else full(m, W, r, cnt); return m; }; }
    else if (op == "resizeback") { M[1] = [=](Engine &E2, State &s2) { Model m; m.size = e; Lin k = S; if (!E2.decideGE0(s2, s2.norm(cnt - S))) k = cnt; if (!E2.decideGE0(s2, s2.norm(e - k))) k = e; full(m, W, r, k); if (k != e) addPiece(m, W, k, e, valueBits(W, 0)); return m; }; }
    else if (op == "clear") { M[1] = with([=](Model &) {}); M[2] = one; }
    else if (op == "store" || op == "flipat") { bool fl = op == "flipat"; M[1] = with([=](Model &m) { m.size = S; full(m, W, r, S); Bits in = moved(r, W, Lin(0)); for (auto &x : in) x = fl ? B.Not(x) : (Node)(v ? 1 : 0); addPiece(m, W, d, d + Lin(1), in); }); }
    else if (is(op, {"copyctor", "copyctora", "copyassign"})) { M[1] = orig; M[2] = with([=](Model &m) { m.size = S; full(m, W, r, S); Bits in = moved(r, W, Lin(0)); for (auto &x : in) x = B.Not(x); addPiece(m, W, d, d + Lin(1), in); }); if (src2) { Lin len = b->n2; M[5] = with([=](Model &m) { m.size = len * W; full(m, W, r2, m.size); }); } }
    else if (is(op, {"movector", "movectora", "moveassign"})) { M[1] = orig; M[3] = one; M[4] = with([=](Model &) {}); }
    else if (op == "pushpop") { M[1] = with([=](Model &m) { m.size = S + Lin(bm); full(m, W, r, S); for (int k = 0; k < bm; k++) addPiece(m, W, S + Lin(k), S + Lin(k + 1), valueBits(W, (v >> k) & 1)); }); M[2] = orig; M[3] = with([=](Model &m) { m.size = S + Lin(bm); full(m, W, r, S); for (int k = 0; k < bm; k++) addPiece(m, W, S + Lin(k), S + Lin(k + 1), valueBits(W, !((v >> k) & 1))); }); }
    else if (op == "erasepush") { Lin cn = e - d; M[1] = with([=](Model &m) { m.size = S - cn + Lin(2); addPiece(m, W, Lin(0), d, moved(r, W, Lin(0))); addPiece(m, W, d, S - cn, moved(r, W, cn)); addPiece(m, W, S - cn, S - cn + Lin(1), valueBits(W, v)); addPiece(m, W, S - cn + Lin(1), S - cn + Lin(2), valueBits(W, !v)); }); }
    else if (op == "eraseinsert") { Lin cn = e - d; M[1] = with([=](Model &m) { m.size = S - cn + cnt; addPiece(m, W, Lin(0), d, moved(r, W, Lin(0))); addPiece(m, W, d, d + cnt, valueBits(W, v)); addPiece(m, W, d + cnt, m.size, moved(r, W, cn - cnt)); }); }
    else M[1] = orig;
  };
  std::string what = "bit_vector::" + op;
  c.obs = [=](Engine &E, State &s, const std::string &n, std::vector<Val> &a) {
    std::string sfx = " (" + E.C->desc + ")";
    if (n == "vp_freeze" || n == "vp_thaw") { for (auto &p : a) if (p.k == VPtr && p.obj) E.mut(s, p.obj).frozen = n == "vp_freeze"; E.oblige("read-only", true); return; }
    if (n == "vp_own" || n == "vp_disown" || n == "vp_id") { // storage belongs to the allocator it was obtained from
      if (a[0].k != VPtr || a[1].k != VLin || !a[1].l.isConst()) unk("allocator identity"); int id = (int)a[1].l.c, o = a[0].obj; bool dflt = is(op, {"ctorstr", "ctordef"});
      if (n == "vp_own") { E.oblige("allocator", id || dflt); if (!id && !dflt) E.report(s, "allocator", E.curI, what + " allocates through a default allocator instead of the one it was given" + sfx); if (o) E.mut(s, o).owner = id; return; }
      if (n == "vp_id") { if (a[2].k != VLin) unk("size"); if (E.decideEQ0(s, a[2].l) || !o) return; bool ok = E.obj(s, o).owner == id; E.oblige("allocator", ok); if (!ok) E.report(s, "allocator", nullptr, what + ": the storage belongs to allocator " + std::to_string(E.obj(s, o).owner) + ", must belong to " + std::to_string(id) + sfx); return; }
      if (!o) return; const Obj &ob = E.obj(s, o); bool ok = ob.owner == id; E.oblige("allocator", ok); if (!ok) { E.report(s, "allocator", E.curI, what + ": storage of allocator " + std::to_string(ob.owner) + " is released through allocator " + std::to_string(id) + sfx); return; }
      if (a[2].k != VLin) unk("size"); ok = E.decideEQ0(s, a[2].l - ob.len * ob.elem); E.oblige("allocator", ok); if (!ok) E.report(s, "allocator", E.curI, what + ": released size " + str(a[2].l) + " differs from the allocated one" + sfx); return; }
    int tag = a[0].k == VLin && a[0].l.isConst() ? (int)a[0].l.c : -1; Lin S = s.norm(b->S), d = s.norm(b->d);
    struct Guard { ~Guard() { normBy = nullptr; } } guard;
    if (n == "vp_obs") {
      if (tag == 9 || tag == 5) { bool ok = q.arm; E.oblige("no-exception", ok); if (!ok) { E.report(s, "exception", s.throwSite, what + " throws" + sfx); s.stuck = true; return; } }
      auto it = models->find(tag); if (it == models->end()) unk("observation without a specification");
      s.throwSite = nullptr; normBy = &s; checkModel(E, s, it->second(E, s), a, W, what + (tag == 9 || tag == 5 ? " after a failed allocation" : tag == 1 ? "" : " then use")); s.notes.push_back("obs" + std::to_string(tag)); return; }
    if (n == "vp_val") {
      Node bit; if (E.isConst(a[1])) bit = a[1].l.c & 1; else bit = E.toBits(a[1])[0];
      if (tag == 6) { bool ok = q.arm; E.oblige("no-exception", ok); if (!ok) E.report(s, "exception", s.throwSite, what + " throws" + sfx); s.notes.push_back("obs9"); return; }
      if (tag == 7) { bool ok = E.decideNode(s, bit); E.oblige("consistency", ok); if (!ok) E.report(s, "value", nullptr, what + ": iterators, size and capacity disagree" + sfx); return; }
      if (tag == 8) { bool ok = q.oob; E.oblige("out-of-range", ok); if (!ok) E.report(s, "exception", nullptr, what + " throws for a position inside the vector" + sfx); s.notes.push_back("oor"); return; }
      if (tag == 1) { if (q.oob) { E.oblige("out-of-range", false); E.report(s, "exception", nullptr, what + " accepts a position past the end" + sfx); s.stuck = true; return; }
        Lin at = is(op, {"front", "frontc"}) ? Lin(0) : is(op, {"back", "backc"}) ? S - Lin(1) : d; Pos p = posOf(at, W); Node want = B.atom(E.obj(s, b->src).region, p.w, p.b); bool ok = E.nodeEq(s, E.simp(s, bit), E.simp(s, want)); E.oblige("value", ok); if (!ok) E.report(s, "value", nullptr, what + ": reads " + strNode(bit) + ", must read " + strNode(want) + sfx); return; }
      unk("observation"); }
    // vp_ret and vp_bit: a position relative to the first word of the vector
    if (a[2].k != VLin) unk("position is data dependent"); if (a[0].k != VPtr || a[1].k != VPtr) unk("iterator is not an address");
    Lin at; if (q.oob && n == "vp_bit") { E.oblige("out-of-range", false); E.report(s, "exception", nullptr, what + " accepts a position past the end" + sfx); s.stuck = true; return; }
    if (is(op, {"front", "frontc", "iters"})) at = Lin(0); else if (is(op, {"back", "backc"})) at = S - Lin(1); else at = d;
    Pos p = posOf(at, W); bool ok = a[1].obj == a[0].obj && E.decideEQ0(s, a[1].l - a[0].l - p.w * (W / 8)) && a[2].l == Lin(p.b); E.oblige("return", ok);
    if (!ok) E.report(s, "return", nullptr, what + ": " + (n == "vp_ret" ? "returned iterator" : "reference") + " designates bit " + str(a[2].l) + " of the word at byte " + str(a[1].l - a[0].l) + ", must be " + str(p) + sfx);
  };
  c.check = [=](Engine &E, State &s) {
    std::string sfx = " (" + E.C->desc + ")"; E.oblige("no-exception", s.outcome == 1); if (s.outcome != 1) { E.report(s, "exception", s.throwSite, what + " ends with " + s.outcomeWhy + sfx); return; }
    bool seen = false; for (auto &x : s.notes) seen |= x == "obs1" || x == "obs9" || x == "obs5" || x == "oor"; E.oblige("observed", seen); if (!seen) unk("operation was not observed");
    for (size_t o = 1; o < s.objs.size(); o++) { const Obj &ob = E.obj(s, o); if (!ob.heap) continue; E.oblige("leak", !ob.alive); if (ob.alive) { E.report(s, "leak", nullptr, what + ": storage " + ob.name + " is never released" + sfx); break; } }
    for (int o : s.objEvents) { const Obj &ob = E.obj(s, o); if (ob.global) { E.oblige("no-shared-state", false); E.report(s, "global-write", nullptr, what + " writes shared state " + ob.name); } else if (o == b->src || (b->src2 && o == b->src2)) { E.oblige("read-only", false); E.report(s, "read-only", nullptr, what + " writes to the range it was built from" + sfx); } }
    E.oblige("no-shared-state", true);
  };
  return c;
}
void buildVec(Suite &out, const Opts &o) {
  std::mt19937_64 rng(o.seed * 6007 + 3); std::string op = o.suite.substr(2); bool th = o.tier == "thorough", hwy = o.cfg == "hwy", arm = false, x = false;
  if (op.size() > 4 && op.compare(op.size() - 4, 4, "_arm") == 0) { arm = true; op = op.substr(0, op.size() - 4); }
  if (op[0] == '+') { x = true; op = op.substr(1); }
  bool shiftR = is(op, {"insert1", "insertn", "insertr", "eraseinsert"}), shiftL = is(op, {"erase1", "eraser", "erasepush", "eraseinsert"}), conc = (hwy || x) && (shiftR || shiftL || is(op, {"resize", "resizev", "resizeback"}));
  auto add = [&](VPart p, bool prio, int heavy = 1) {
    p.op = op; p.arm = arm; p.x = x;
    auto bounded = [p] { std::vector<Case> v; for (i64 k : {0, 1, 2, 3}) for (i64 d : {0, 1, 2}) for (i64 m : {0, 1, 3}) { VPart r = p; r.sym = false; r.val = {{"N", d + m}, {"D", d}, {"M", m}, {"K", k}, {"C", m}, {"E", d}}; v.push_back(vecCase(r)); } for (i64 k : {5, 9, 20}) { VPart r = p; r.sym = false; r.val = {{"N", k}, {"D", k / 2}, {"M", k}, {"K", k / 2 + 1}, {"C", k}, {"E", k - 2}}; v.push_back(vecCase(r)); } return v; };
    if (conc) { for (int i = 0; i < (th ? 3 : 1); i++) { VPart r = p; r.sym = false; r.val = {{"N", (i64)(rng() % 12)}, {"D", (i64)(rng() % 5)}, {"M", (i64)(rng() % (rng() % 4 ? 6 : 40))}, {"K", (i64)(rng() % 4)}, {"C", (i64)(rng() % 5)}, {"E", (i64)(rng() % 9)}}; out.push_back({vecCase(r), nullptr, prio, heavy}); } return; }
    if (!p.sym) { out.push_back({vecCase(p), nullptr, prio, heavy}); return; }
    out.push_back({vecCase(p), bounded, prio, heavy}); };
  for (int W : {8, 16, 32, 64}) { if (o.W && W != o.W) continue;
    std::vector<int> cs; if (W == 8) cs = {0, 1, 2, 3, 4, 5, 6, 7}; else cs = {0, 1, W / 2, W - 1}; std::vector<int> all; for (int i = 0; i < W; i++) all.push_back(i);
    std::set<int> pr = {0, 1, W / 2, W - 1};
    VPart p; p.W = W;
    if (op.compare(0, 4, "ctor") == 0) {
      if (op == "ctorwords") add(p, true);
      else if (op == "ctorcount" || op == "ctorcountv") for (int kb : all) for (int v = 0; v < 2; v++) { p.kb = kb; p.v = v; add(p, pr.count(kb)); if (op == "ctorcount") break; }
      else if (op == "ctorbits") for (int lb : W <= 16 || th ? all : cs) for (int kb : W <= 16 || th ? all : cs) { p.lb = lb; p.kb = kb; add(p, pr.count(lb) && pr.count(kb)); }
      else if (op == "ctorbool") for (int n : {0, 1, 2, 3, W - 1, W, W + 1, 2 * W + 3}) { p.m = n; p.sym = false; p.text.clear(); if (n > 3) for (int k = 0; k < n; k++) p.text += "01"[rng() % 2]; add(p, true); }
      else if (op == "ctorstr") { p.sym = false; for (int n = 0; n <= (th ? 4 : 3); n++) { VPart q = p; q.symText = true; q.m = n; add(q, true); } for (int k = 0; k < 4; k++) { VPart q = p; int len = k == 0 ? W : k == 1 ? W + 1 : 2 * W + 5 + rng() % 9; while ((int)q.text.size() < len) q.text += "0101 _2"[k < 2 ? rng() % 4 : rng() % 7]; add(q, true); } }
      else { p.sym = false; for (int v = 0; v < 2; v++) { p.v = v; add(p, true); } }
      continue; }
    bool hasD = is(op, {"insert1", "insertn", "insertr", "erase1", "eraser", "at", "atc", "index", "indexc", "store", "flipat", "constread", "copyctor", "copyctora", "copyassign", "erasepush", "eraseinsert"}), hasE = is(op, {"eraser", "erasepush", "eraseinsert"}), hasC = is(op, {"insertn", "resize", "resizev", "reserve", "resizeback", "eraseinsert"});
    bool val = is(op, {"pushback", "insert1", "insertn", "resizev", "clear", "store", "movector", "movectora", "moveassign", "pushpop", "erasepush", "eraseinsert", "shrinkpush"}), grows = is(op, {"pushback", "insert1", "insertn", "insertr", "resize", "resizev", "reserve", "shrink", "shrinkpush", "eraseinsert", "resizeback", "pushpop"});
    int dims = 1 + hasD + hasE + hasC + (op == "insertr" ? 2 : 0) + (op == "resizeback"); bool exh = dims <= 2 ? W <= 32 || th : dims == 3 ? W == 8 : false; long rnd = dims <= 1 ? 0 : th ? 4000 : 600;
    int hows = 0;
    auto one = [&](std::vector<int> v) {
      VPart q = p; int i = 0; q.j = v[i++]; if (hasD) q.db = v[i++]; if (hasE) q.eb = v[i++]; if (hasC) q.kb = v[i++]; if (op == "insertr") { q.lb = v[i++]; q.kb = v[i++]; } if (op == "resizeback") q.eb = v[i++];
      bool pri = true; for (int t : v) pri = pri && pr.count(t); q.how = q.j ? (hows++ + q.j) % 3 : 0; q.v = val ? (int)(rng() % 2) : 0; q.cap = grows && rng() % 2 ? (int)(1 + rng() % 2) : 0; if (op == "pushpop") { q.v = rng() % 256; q.m = 1 + rng() % (W == 8 ? 10 : 4); }
      add(q, pri, 1); if (dims == 1 && q.j) { VPart t = q; for (int k = 0; k < 3; k++) if (k != q.how) { t.how = k; add(t, pri, 1); } } if (pri && grows && !q.cap) { q.cap = 2; add(q, pri); } if ((op == "at" || op == "atc")) { q.oob = true; add(q, pri); } };
    std::vector<int> base = dims == 1 ? all : exh ? all : cs; if (dims >= 4) base = {0, 1, W - 1};
    std::vector<size_t> ix(dims, 0); for (;;) { std::vector<int> v(dims); for (int i = 0; i < dims; i++) v[i] = base[ix[i]]; one(v); int i = 0; while (i < dims && ++ix[i] == base.size()) ix[i++] = 0; if (i == dims) break; }
    if (!exh) for (long k = 0; k < rnd; k++) { std::vector<int> v(dims); for (auto &t : v) t = rng() % W; one(v); }
  }
}
