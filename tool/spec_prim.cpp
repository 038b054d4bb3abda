// Specifications of the word primitives, iterators, pointers, references and values.
#include "spec.h"
using namespace llvm;
namespace {
struct X { // what a case works on: `mem` words visible to the callee, `in` words passed by value, `out` result iterators
  Engine *E = nullptr; State *s = nullptr; int W = 0, mem = 0, in = 0, out = 0, i = 0; Lin n, k, a;
  void reg(Val v) { s->st.back()->r[i++] = std::move(v); }
  Bits word(int obj, int k) { Bits v(W); for (int b = 0; b < W; b++) v[b] = B.atom(E->obj(*s, obj).region, Lin(k), b); return v; }
  void memory(const Lin &words, int inWords = 2, int skew = 0) { mem = E->newObj(*s, "memory", true, W / 8, words); in = E->newObj(*s, "arguments", true, W / 8, Lin(inWords)); out = E->newObj(*s, "result", false, 1, Lin(32));
    for (int b = 0; b < W; b++) for (int q = 0; q < inWords; q++) { int i = q == 1 ? ((b + skew) % W + W) % W : b; B.atom(E->obj(*s, in).region, Lin(q), i); } } // related bits next to each other in the variable order
  void w(int k) { reg(E->mkB(word(in, k))); } void c(i64 v) { reg(E->mkC(v, 64)); } void cw(uint64_t v) { reg(E->mkC(W == 64 ? (i64)v : (i64)(v & ((1ull << W) - 1)), W)); } void c8(i64 v) { reg(E->mkC(v, 8)); }
  void p(const Lin &word = Lin(0)) { reg(E->mkP(mem, word * (W / 8))); } void o() { reg(E->mkP(out, Lin(0))); }
  Node flag(int k) { return B.atom(E->obj(*s, in).region, Lin(k), 0); } void b(int k) { reg(E->mkB(Bits{flag(k)})); }
};
typedef std::function<void(X &)> SF;
}
static Lin param(Engine &E, const char *nm) { int v = newParam(nm); E.C->params[nm] = v; return Lin::var(v); }
static Bits konst(uint64_t v, int n) { Bits r(n); for (int i = 0; i < n; i++) r[i] = i < 64 && (v >> i & 1); return r; }
static Case mkCase(const std::string &fn, int W, const std::string &desc, SF setup, SF check) {
  Case c; c.W = W; c.fn = fn + "_" + std::to_string(W); c.group = fn; c.desc = "W=" + std::to_string(W) + " " + desc; auto x = std::make_shared<X>();
  c.setup = [=](Engine &E, State &s) { *x = X(); x->E = &E; x->s = &s; x->W = W; setup(*x); };
  c.check = [=](Engine &E, State &s) { X y = *x; y.E = &E; y.s = &s; E.oblige("no-exception", s.outcome == 1); if (s.outcome != 1) { E.report(s, "exception", s.throwSite, fn + " terminates with " + s.outcomeWhy + " (" + E.C->desc + ")"); return; }
    for (int o : s.objEvents) { bool bad = E.obj(s, o).global; E.oblige("no-shared-state", !bad); if (bad) E.report(s, "global-write", nullptr, fn + " writes shared state"); } check(y); };
  return c;
}
// compares bits [from, from+n) of the result
static void retEq(X &x, const Bits &want, int n = -1) {
  Engine &E = *x.E; State &s = *x.s; Bits got = E.toBits(s.ret); if (n < 0) n = got.size(); bool ok = true; int at = 0;
  for (int i = 0; i < n && ok; i++) if (!E.nodeEq(s, E.simp(s, got[i]), E.simp(s, i < (int)want.size() ? want[i] : 0))) { ok = false; at = i; }
  E.oblige("value", ok); if (!ok) E.report(s, "value", nullptr, E.C->group + ": bit " + std::to_string(at) + " of the result is " + strNode(E.simp(s, got[at])) + ", must be " + strNode(E.simp(s, at < (int)want.size() ? want[at] : 0)) + " (" + E.C->desc + ")");
}
static void retConst(X &x, uint64_t v) { retEq(x, konst(v, 64)); }
static void retLin(X &x, const Lin &want) {
  Engine &E = *x.E; State &s = *x.s; if (s.ret.k != VLin) unk("data dependent result"); Lin d = s.ret.l - want; bool ok = d.isConst() ? d.c == 0 : E.decideEQ0(s, d); E.oblige("value", ok);
  if (!ok) E.report(s, "value", nullptr, E.C->group + ": result is " + str(s.ret.l) + ", must be " + str(want) + " (" + E.C->desc + ")");
}
static void memEq(X &x, const std::vector<Bits> &want) { std::vector<Seg> v; for (size_t i = 0; i < want.size(); i++) v.push_back({Lin(i), Lin(i + 1), mkT(want[i], false), nullptr}); checkObj(*x.E, *x.s, x.mem, v, nullptr, x.E->C->group); }
static void memSame(X &x) { checkObj(*x.E, *x.s, x.mem, original(*x.E, *x.s, x.mem), nullptr, x.E->C->group + " must not write"); }
// result iterator number k must designate bit `want` of the memory
static void iterIs(X &x, int k, Pos want) {
  Engine &E = *x.E; State &s = *x.s; int W = x.W; want = norm(want, W); const Obj &r = E.obj(s, x.out); auto a = r.cells.find(16 * k), b = r.cells.find(16 * k + 8); std::string got = "nothing"; bool ok = false;
  if (a != r.cells.end() && b != r.cells.end() && a->second.v.k == VPtr) { const Val &pv = b->second.v, &av = a->second.v; i64 pos; if (pv.k == VLin && pv.l.isConst()) pos = pv.l.c; else { Bits q = E.toBits(pv); pos = 0; for (int i = 0; i < 64; i++) { Node z = E.simp(s, q[i]); if (z > 1) unk("data dependent position"); pos |= (i64)z << i; } }
    got = E.obj(s, av.obj).name + "+" + str(av.l) + " bytes, bit " + std::to_string(pos); ok = av.obj == x.mem && pos == want.b && E.decideEQ0(s, av.l - s.norm(want.w) * (W / 8)); }
  E.oblige("return", ok); if (!ok) E.report(s, "return", a != r.cells.end() ? a->second.src : nullptr, E.C->group + ": designates " + got + ", must be bit " + std::to_string(want.b) + " of word " + str(want.w) + " (" + E.C->desc + ")");
}
void buildPrim(Suite &out, const Opts &o) {
  std::mt19937_64 rng(o.seed * 31337 + 7); bool th = o.tier == "thorough"; std::string g = o.suite.substr(2); bool prio = false; if (g == "popcnt") { buildPopcnt(out, o); return; }
  auto add = [&](Case c, std::function<std::vector<Case>()> fb = nullptr) { out.push_back({c, fb, prio, 1}); };
  for (int W : {8, 16, 32, 64}) { if (o.W && W != o.W) continue; uint64_t M = W == 64 ? ~0ull : (1ull << W) - 1;
    std::vector<int> all, cs; for (int i = 0; i < W; i++) all.push_back(i); if (W == 8 || (th && W <= 32)) cs = all; else cs = {0, 1, 2, W / 2 - 1, W / 2, W / 2 + 1, W - 2, W - 1, (int)(rng() % W), (int)(rng() % W)};
    auto D = [](std::initializer_list<std::pair<const char *, i64>> l) { std::string s; for (auto &p : l) s += std::string(s.empty() ? "" : " ") + p.first + "=" + std::to_string(p.second); return s; };
    if (g == "count") {
      prio = true; for (std::string f : {"popcnt", "popcntx", "lzcnt", "lzcntx", "tzcnt", "tzcntx"}) add(mkCase(f, W, "", [](X &x) { x.memory(Lin(1)); x.w(0); }, [f, W](X &x) { Bits a = x.word(x.in, 0); Engine &E = *x.E; State &s = *x.s;
        if (f[0] == 'p') { Lin l; for (Node q : a) { q = E.simp(s, q); if (q == 1) l = l + Lin(1); else if (q) l = l + Lin::var(bitVar(q)); } if (s.ret.k == VLin) { Lin d = s.ret.l - l; extern bool bitSumIsZero(Engine &, State &, const Lin &); bool ok = d.isConst() ? d.c == 0 : bitSumIsZero(E, s, d); E.oblige("value", ok); if (!ok) E.report(s, "value", nullptr, f + ": result is " + str(s.ret.l) + ", must be the number of set bits"); } else retEq(x, E.linBits(l, W)); return; }
        Bits r = konst(W, W); bool lead = f[0] == 'l'; for (int j = 0; j < W; j++) { int i = lead ? j : W - 1 - j; Bits v = konst(lead ? W - 1 - i : i, W); for (int b = 0; b < W; b++) r[b] = B.ite(a[i], v[b], r[b]); } retEq(x, r); }));
    }
    if (g == "perm") {
      prio = true; for (std::string f : {"byteswap", "byteswapx", "bitswap"}) add(mkCase(f, W, "", [](X &x) { x.memory(Lin(1)); x.w(0); }, [f, W](X &x) { Bits a = x.word(x.in, 0), r(W); for (int i = 0; i < W; i++) r[i] = f == "bitswap" ? a[W - 1 - i] : a[(W / 8 - 1 - i / 8) * 8 + i % 8]; retEq(x, r); }));
      prio = false; std::vector<uint64_t> ms = {0, M, 1, M ^ 1, 1ull << (W - 1), M >> 1, 0x5555555555555555ull & M, 0xaaaaaaaaaaaaaaaaull & M, 0xf0f0f0f0f0f0f0f0ull & M, 0x0ff00ff00ff00ff0ull & M}; if (W == 8) { ms.clear(); for (int i = 0; i < 256; i++) ms.push_back(i); } else for (int i = 0; i < (th ? 400 : 40); i++) { uint64_t v = rng(); if (i % 3 == 0) v &= rng(); if (i % 3 == 1) v |= rng(); ms.push_back(v & M); }
      for (uint64_t m : ms) for (std::string f : {"pdep", "pext"}) add(mkCase(f, W, "mask=" + std::to_string(m), [m](X &x) { x.memory(Lin(1)); x.w(0); x.cw(m); }, [f, W, m](X &x) { Bits a = x.word(x.in, 0), r(W, 0); int k = 0; for (int i = 0; i < W; i++) if (m >> i & 1) { if (f == "pdep") r[i] = a[k]; else r[k] = a[i]; k++; } retEq(x, r); }));
    }
    if (g == "field") {
      std::vector<int> cl = cs; cl.push_back(W); 
      for (int st : cs) for (int l : cl) { prio = l == W || l <= 1 || l == W - 1; 
        add(mkCase("bextr", W, D({{"start", st}, {"len", l}}), [st, l](X &x) { x.memory(Lin(1)); x.w(0); x.cw(st); x.cw(l); }, [=](X &x) { Bits a = x.word(x.in, 0), r(W, 0); for (int i = 0; i < l && st + i < W; i++) r[i] = a[st + i]; retEq(x, r); }));
        add(mkCase("blend4", W, D({{"start", st}, {"len", l}}), [st, l](X &x) { x.memory(Lin(1)); x.w(0); x.w(1); x.cw(st); x.cw(l); }, [=](X &x) { Bits r = x.word(x.in, 0), b = x.word(x.in, 1); for (int i = st; i < W && i < st + l; i++) r[i] = b[i]; retEq(x, r); }));
        if (st + l <= W) { add(mkCase("exch4", W, D({{"start", st}, {"len", l}}), [st, l](X &x) { x.memory(Lin(2)); x.p(); x.c(st); x.c(l); }, [=](X &x) { Bits a = x.word(x.mem, 0), b = x.word(x.mem, 1); for (int i = st; i < st + l; i++) std::swap(a[i], b[i]); memEq(x, {a, b}); }));
          for (int t : cs) if (t + l <= W) { bool pr = prio; prio = pr && (t == st || t == 0); add(mkCase("exch5", W, D({{"start0", st}, {"start1", t}, {"len", l}}), [=](X &x) { x.memory(Lin(2)); x.p(); x.c(st); x.c(t); x.c(l); }, [=](X &x) { Bits a = x.word(x.mem, 0), b = x.word(x.mem, 1); for (int i = 0; i < l; i++) std::swap(a[st + i], b[t + i]); memEq(x, {a, b}); }));
            add(mkCase("bitcmp", W, D({{"start0", st}, {"start1", t}, {"len", l}}), [=](X &x) { x.memory(Lin(1), 2, t - st); x.w(0); x.w(1); x.cw(st); x.cw(t); x.cw(l); }, [=](X &x) { Bits a = x.word(x.in, 0), b = x.word(x.in, 1); Node r = 1; for (int i = 0; i < l; i++) r = B.And(r, B.Xnor(a[st + i], b[t + i])); retEq(x, Bits{r}); })); prio = pr; } } }
      prio = true; add(mkCase("blend3", W, "", [](X &x) { x.memory(Lin(1), 3); x.w(0); x.w(1); x.w(2); }, [=](X &x) { Bits a = x.word(x.in, 0), b = x.word(x.in, 1), m = x.word(x.in, 2), r(W); for (int i = 0; i < W; i++) r[i] = B.ite(m[i], b[i], a[i]); retEq(x, r); }));
      add(mkCase("exch3", W, "", [](X &x) { x.memory(Lin(2)); x.p(); x.w(0); }, [=](X &x) { Bits a = x.word(x.mem, 0), b = x.word(x.mem, 1), m = x.word(x.in, 0); for (int i = 0; i < W; i++) { Node u = B.ite(m[i], b[i], a[i]), v = B.ite(m[i], a[i], b[i]); a[i] = u; b[i] = v; } memEq(x, {a, b}); }));
    }
    if (g == "wide") {
      std::set<int> cn; for (int i = 0; i <= 2 * W + 1 && i < 256; i++) if (W <= 16 || th || i % 7 == 0 || i % W <= 1 || i % W == W - 1) cn.insert(i); if (W == 8) { cn.insert(255); cn.insert(100); }
      for (int c : cn) for (std::string f : {"shld", "shrd"}) { prio = c % W <= 1 || c == W - 1; add(mkCase(f, W, D({{"count", c}}), [c](X &x) { x.memory(Lin(1)); x.w(0); x.w(1); x.cw(c); }, [=](X &x) { Bits a = x.word(x.in, 0), b = x.word(x.in, 1), r(W); for (int i = 0; i < W; i++) { int q = f == "shld" ? i - c : i + c; r[i] = q >= 0 && q < W ? a[q] : f == "shld" ? (q + W >= 0 && q < 0 ? b[q + W] : 0) : (q >= W && q < 2 * W ? b[q - W] : 0); } retEq(x, r); })); }
      prio = true; for (std::string f : {"addcarry", "subborrow", "addcarryx", "subborrowx"}) for (int c : {0, 1, 2}) add(mkCase(f, W, D({{"carry", c}}), [c](X &x) { x.memory(Lin(1)); x.c8(c); x.w(0); x.w(1); x.p(); }, [=](X &x) { Bits a = x.word(x.in, 0), b = x.word(x.in, 1); bool sub = f[0] == 's'; if (sub) for (auto &q : b) q = B.Not(q); Node co, ci = (c != 0) != sub ? 1 : 0; Bits r = x.E->ripple(a, b, ci, &co); memEq(x, {r}); Node want = sub ? B.Not(co) : co; retEq(x, Bits{want}); }));
    }
    if (g == "mul") { // full product: both factors free for 8 bits, otherwise one factor concrete
      std::vector<uint64_t> ks = {0, 1, 2, 3, 5, 1ull << (W - 1), 3ull << (W - 2), 1ull << (W / 2), 3ull << (W / 2 - 1)}; if (W <= 16) ks.push_back(M); for (int i = 0; i < (th ? 60 : 8); i++) { int p = rng() % W; ks.push_back(1ull << p | 1ull << (p - (int)(rng() % std::min(p + 1, 5)))); }
      for (std::string f : {"mulx", "mulxx"}) { prio = true; auto want = [=](X &x, const Bits &a, const Bits &b) { Bits r(2 * W, 0); for (int i = 0; i < W; i++) if (b[i]) { Bits t(2 * W, 0); for (int k = 0; k < W; k++) t[i + k] = B.And(a[k], b[i]); r = x.E->ripple(r, t, 0); } memEq(x, {Bits(r.begin() + W, r.end())}); retEq(x, Bits(r.begin(), r.begin() + W)); };
        if (W == 8) add(mkCase(f, W, "any factors", [](X &x) { x.memory(Lin(1)); x.w(0); x.w(1); x.p(); }, [=](X &x) { want(x, x.word(x.in, 0), x.word(x.in, 1)); }));
        for (uint64_t k : ks) for (int sw : {0, 1}) add(mkCase(f, W, "factor " + std::to_string(k) + (sw ? " first" : " second"), [=](X &x) { x.memory(Lin(1)); if (sw) x.cw(k); x.w(0); if (!sw) x.cw(k); x.p(); }, [=](X &x) { want(x, x.word(x.in, 0), konst(k, W)); })); }
    }
    if (g == "words") { // get_word, write_word, _padded_read
      for (int p : cs) { std::vector<int> ls = cs; ls.push_back(W); for (int l : ls) { if (!l) continue; prio = p + l == W || p + l == W + 1 || l == W || l == 1; i64 nw = p + l > W ? 2 : 1;
          add(mkCase("getword", W, D({{"position", p}, {"len", l}}), [=](X &x) { x.memory(Lin(nw)); x.p(); x.c(p); x.c(l); }, [=](X &x) { Bits a = x.word(x.mem, 0), b = x.word(x.mem, 1); a.insert(a.end(), b.begin(), b.end()); retEq(x, Bits(a.begin() + p, a.begin() + p + l), l); memSame(x); }));
          add(mkCase("writeword", W, D({{"position", p}, {"len", l}}), [=](X &x) { x.memory(Lin(nw)); x.w(0); x.p(); x.c(p); x.cw(l); }, [=](X &x) { Bits a = x.word(x.mem, 0), v = x.word(x.in, 0); std::vector<Bits> m{a}; if (nw > 1) m.push_back(x.word(x.mem, 1)); for (int i = 0; i < l; i++) m[(p + i) / W][(p + i) % W] = v[i]; memEq(x, m); })); }
        for (int q : cs) for (int far = 0; far <= 2; far++) for (int v : {0, 1}) { if (!far && q <= p) continue; if (far == 2 && q) continue; prio = !q || q == W - 1 || p == 0; add(mkCase("padded", W, D({{"first", p}, {"last word", far}, {"last", q}, {"padding", v}}), [=](X &x) { x.memory(Lin(1)); x.p(); x.c(p); x.p(Lin(far)); x.c(q); x.c8(v); }, [=](X &x) { Bits r = x.word(x.mem, 0); for (int i = 0; i < W; i++) if (i < p || (!far && i >= q)) r[i] = v; retEq(x, r); memSame(x); })); } }
    }
    if (g == "wshift") { // whole-word shifts of n words by k
      prio = true; for (std::string f : {"wshl", "wshr"}) for (int neg : {0, 1}) { std::function<Case(i64, i64)> mk = [=, &mk](i64 n0, i64 k0) { bool sym = n0 < 0; Case c = mkCase(f, W, sym ? (neg ? "n words, shift <= 0" : "n words, shift k") : D({{"words", n0}, {"shift", k0}}), [=](X &x) {
            x.n = sym ? param(*x.E, "N") : Lin(n0); x.k = sym ? (neg ? param(*x.E, "K") * -1 : param(*x.E, "K")) : Lin(k0); x.memory(x.n); x.p(); x.p(x.n); x.reg(x.E->mkL(x.k, 64)); },
          [=](X &x) { Engine &E = *x.E; State &s = *x.s; Lin n = s.norm(x.n), k = s.norm(x.k); bool left = f == "wshl"; int r = E.obj(s, x.mem).region; std::vector<Seg> v = original(E, s, x.mem);
            if (!E.decideGE0(s, k - Lin(1))) { retLin(x, left ? n : Lin(0)); memSame(x); return; } if (E.decideGE0(s, k - n)) { retLin(x, left ? Lin(0) : n); return; }
            retLin(x, left ? n - k : k); v = expectRange(E, s, x.mem, Pos{Lin(0), 0}, Pos{n, 0}, Bits(W, ~0u), false); v = left ? expectRange(E, s, x.mem, Pos{Lin(0), 0}, Pos{n - k, 0}, shifted(r, W, k, 0), true, v) : expectRange(E, s, x.mem, Pos{k, 0}, Pos{n, 0}, shifted(r, W, k * -1, 0), true, v); checkObj(E, s, x.mem, v, nullptr, f); });
          return c; };
        Case c = mk(-1, 0); c.symbolic = true; auto conc = [=](i64 n, i64 k) { // the same case with concrete sizes
            return mkCase(f, W, D({{"words", n}, {"shift", neg ? -k : k}}), [=](X &x) { x.n = Lin(n); x.k = Lin(neg ? -k : k); x.memory(x.n); x.p(); x.p(x.n); x.reg(x.E->mkL(x.k, 64)); }, [=](X &x) { Engine &E = *x.E; State &s = *x.s; i64 kk = neg ? -k : k; bool left = f == "wshl"; if (kk <= 0) { retLin(x, left ? Lin(n) : Lin(0)); memSame(x); return; } if (kk >= n) { retLin(x, left ? Lin(0) : Lin(n)); return; } retLin(x, Lin(left ? n - kk : kk)); std::vector<Seg> v; for (i64 i = 0; i < n; i++) { i64 q = left ? i + kk : i - kk; v.push_back({Lin(i), Lin(i + 1), mkT(q >= 0 && q < n ? x.word(x.mem, q) : Bits(W, ~0u), false), nullptr}); } checkObj(E, s, x.mem, v, nullptr, f); }); };
        c.concretise = [=](const std::map<std::string, i64> &m) { return conc(m.count("N") ? m.at("N") : 0, m.count("K") ? m.at("K") : 0); };
        add(c, [=] { std::vector<Case> fb; for (i64 n : {0, 1, 2, 3, 5, 8, 17}) for (i64 k : {0, 1, 2, 3, 5, 8, 16, 17, 18}) if (k <= n + 1) fb.push_back(conc(n, k)); return fb; }); }
    }
    if (g == "iter" || g == "ptr") {
      std::string P = g == "iter" ? "it_" : "bp_"; std::vector<int> ps = W == 8 || th ? all : cs;
      // moving by any number of bits n = K*W + r, in either direction, from bit p of word A
      std::vector<std::string> moves = {P + "add", P + "radd", P + "sub", P + "addeq", P + "subeq", P + "idx"}; if (g == "iter") { moves.push_back("next"); moves.push_back("adv"); }
      for (int p : ps) for (int r : W == 8 ? all : cs) for (int dir : {1, -1}) for (auto &f : moves) { prio = (p == 0 || p == W - 1 || p == 1) && (r == 0 || r == 1 || r == W - 1);
          bool minus = f == P + "sub" || f == P + "subeq", two = f == P + "addeq" || f == P + "subeq";
          auto mk = [=](i64 A0, i64 K0) { bool sym = A0 < 0; Case c = mkCase(f, W, D({{"position", p}, {"direction", dir}, {"bits", r}}) + (sym ? " plus any number of words" : D({{" word", A0}, {" words", K0}})), [=](X &x) {
              x.a = sym ? param(*x.E, "A") : Lin(A0); x.k = sym ? param(*x.E, "K") : Lin(K0); Lin start = dir > 0 ? x.a : x.a + x.k + Lin(1); x.memory(x.a + x.k + Lin(3)); x.p(start); x.c(p); Lin n = (x.k * W + Lin(r)) * dir; x.reg(x.E->mkL(minus ? n * -1 : n, 64)); x.o(); },
            [=](X &x) { State &s = *x.s; Lin a = s.norm(x.a), k = s.norm(x.k); Pos want = dir > 0 ? Pos{a + k, p + r} : Pos{a + Lin(1), p - r}; iterIs(x, 0, want); if (two) iterIs(x, 1, want); memSame(x); });
            c.symbolic = sym; return c; };
          Case c = mk(-1, 0); c.concretise = [=](const std::map<std::string, i64> &m) { return mk(m.count("A") ? m.at("A") : 0, m.count("K") ? m.at("K") : 0); }; add(c, [=] { std::vector<Case> fb; for (i64 k : {0, 1, 2, 3, 7, 100}) fb.push_back(mk(1, k)); return fb; }); }
      prio = false; for (int p : W <= 16 || th ? all : ps) { prio = p == 0 || p == W - 1;
        for (std::string f : {"inc", "dec", "pinc", "pdec"}) add(mkCase(P + f, W, D({{"position", p}}), [=](X &x) { x.memory(Lin(3)); x.p(Lin(1)); x.c(p); x.o(); }, [=](X &x) { int d = f.find("inc") != std::string::npos ? 1 : -1; iterIs(x, 0, Pos{Lin(1), p + d}); iterIs(x, 1, Pos{Lin(1), f[0] == 'p' ? p : p + d}); memSame(x); }));
        add(mkCase(P + "deref", W, D({{"position", p}}), [=](X &x) { x.memory(Lin(3)); x.p(Lin(1)); x.c(p); x.o(); }, [=](X &x) { iterIs(x, 0, Pos{Lin(1), p}); iterIs(x, 1, Pos{Lin(1), p}); memSame(x); }));
        add(mkCase(P + "conv", W, D({{"position", p}}), [=](X &x) { x.memory(Lin(3)); x.p(Lin(1)); x.c(p); x.o(); }, [=](X &x) { iterIs(x, 0, Pos{Lin(1), p}); iterIs(x, 1, Pos{Lin(1), p}); memSame(x); }));
        add(mkCase(P + "arrow", W, D({{"position", p}}), [=](X &x) { x.memory(Lin(1)); x.p(); x.c(p); }, [=](X &x) { Bits a = x.word(x.mem, 0); a[p] = 1; memEq(x, {a}); }));
        if (g == "iter") add(mkCase("it_mask", W, D({{"position", p}}), [=](X &x) { x.memory(Lin(1)); x.p(); x.c(p); }, [=](X &x) { retConst(x, 1ull << p); memSame(x); }));
        else { add(mkCase("bp_null", W, D({{"position", p}}), [=](X &x) { x.memory(Lin(1)); x.p(); x.c(p); }, [=](X &x) { retConst(x, 0); memSame(x); }));
          int q = (p * 3 + 1) % W; add(mkCase("bp_copy", W, D({{"position", p}, {"other", q}}), [=](X &x) { x.memory(Lin(3)); x.p(Lin(1)); x.c(p); x.p(Lin(2)); x.c(q); x.o(); }, [=](X &x) { iterIs(x, 0, Pos{Lin(1), p}); iterIs(x, 1, Pos{Lin(2), q}); memSame(x); })); }
      }
      prio = true; if (g == "iter") add(mkCase("it_word", W, "", [=](X &x) { x.memory(Lin(1)); x.p(); x.o(); }, [=](X &x) { iterIs(x, 0, Pos{Lin(0), 0}); iterIs(x, 1, Pos{Lin(0), 0}); }));
      else add(mkCase("bp_first", W, "", [=](X &x) { x.memory(Lin(1)); x.p(); }, [=](X &x) { retConst(x, 1); }));
      // distance and order of bit p of word A and bit q of word A+D (or the other way round)
      std::vector<std::string> pairs = {P + "diff", P + "diffc", P + "cmp", P + "cmpc"}; if (g == "iter") for (const char *n : {"dist", "within", "within0", "within2"}) pairs.push_back(n);
      for (int p : W == 8 ? all : cs) for (int q : W == 8 ? all : cs) for (int dir : {1, -1}) for (auto &f : pairs) { prio = (p == 0 || p == W - 1 || p == q) && (q == 0 || q == W - 1 || p == q); bool fwd = f == "dist" || f[0] == 'w'; if (fwd && dir < 0) continue;
          auto mk = [=](i64 A0, i64 D0) { bool sym = A0 < 0; Case c = mkCase(f, W, D({{"position", p}, {"other", q}, {"direction", dir}}) + (sym ? " any number of words apart" : D({{" word", A0}, {" apart", D0}})), [=](X &x) {
              x.a = sym ? param(*x.E, "A") : Lin(A0); x.k = (sym ? param(*x.E, "D") : Lin(D0)) + Lin(fwd && q < p ? 1 : 0); x.memory(x.a + x.k + Lin(3)); x.p(dir > 0 ? x.a : x.a + x.k); x.c(p); x.p(dir > 0 ? x.a + x.k : x.a); x.c(q); },
            [=](X &x) { Engine &E = *x.E; State &s = *x.s; Lin d = s.norm(x.k) * (W * dir) + Lin(q - p); memSame(x); // (other) - (this) in bits
              if (f == "dist") { retLin(x, d); return; } if (f == P + "diff" || f == P + "diffc") { retLin(x, d * -1); return; }
              if (f[0] == 'w') { int n = f == "within" ? W : f == "within2" ? 2 * W : W / 2 + 1; retConst(x, E.decideGE0(s, Lin(n) - d)); return; }
              bool ge = E.decideGE0(s, d), eq = ge && E.decideEQ0(s, d); bool lt = ge && !eq; retConst(x, (eq ? 1 : 2) | (lt ? 4 : 0) | (ge ? 8 : 0) | (!ge ? 16 : 0) | (!lt ? 32 : 0)); });
            c.symbolic = sym; return c; };
          Case c = mk(-1, 0); c.concretise = [=](const std::map<std::string, i64> &m) { return mk(m.count("A") ? m.at("A") : 0, m.count("D") ? m.at("D") : 0); }; add(c, [=] { std::vector<Case> fb; for (i64 k : {0, 1, 2, 3, 7, 100}) fb.push_back(mk(1, k)); return fb; }); }
    }
    if (g == "ref") {
      typedef std::function<void(X &, Bits &, Node)> MF; // effect on the word holding the bit
      for (int p : W <= 16 || th ? all : cs) { prio = p == 0 || p == W - 1; auto one = [&](const char *f, bool flag, MF mf) { add(mkCase(std::string("ref_") + f, W, D({{"position", p}}), [=](X &x) { x.memory(Lin(1)); x.p(); x.c(p); if (flag) x.b(0); }, [=](X &x) { Bits a = x.word(x.mem, 0); mf(x, a, flag ? x.flag(0) : 0); memEq(x, {a}); })); };
        one("bool", false, [=](X &x, Bits &a, Node) { retEq(x, Bits{a[p]}); }); one("set", false, [=](X &, Bits &a, Node) { a[p] = 1; }); one("reset", false, [=](X &, Bits &a, Node) { a[p] = 0; }); one("flip", false, [=](X &, Bits &a, Node) { a[p] = B.Not(a[p]); }); one("mask", false, [=](X &x, Bits &, Node) { retConst(x, 1ull << p); });
        one("asgv", true, [=](X &, Bits &a, Node v) { a[p] = v; }); one("setb", true, [=](X &, Bits &a, Node v) { a[p] = v; }); one("and", true, [=](X &, Bits &a, Node v) { a[p] = B.And(a[p], v); }); one("or", true, [=](X &, Bits &a, Node v) { a[p] = B.Or(a[p], v); }); one("xor", true, [=](X &, Bits &a, Node v) { a[p] = B.Xor(a[p], v); });
        for (const char *f : {"swapv", "fswapv", "fswapw", "vswap"}) one(f, true, [=](X &x, Bits &a, Node v) { retEq(x, Bits{a[p]}); a[p] = v; });
        add(mkCase("ref_addr", W, D({{"position", p}}), [=](X &x) { x.memory(Lin(3)); x.p(Lin(1)); x.c(p); x.o(); }, [=](X &x) { iterIs(x, 0, Pos{Lin(1), p}); iterIs(x, 1, Pos{Lin(1), p}); memSame(x); }));
        add(mkCase("ref_asgw", W, D({{"position", p}}), [=](X &x) { x.memory(Lin(1)); x.p(); x.c(p); x.w(0); }, [=](X &x) { Bits a = x.word(x.mem, 0); a[p] = x.word(x.in, 0)[0]; memEq(x, {a}); }));
        for (int k : cs) add(mkCase("ref_asgwp", W, D({{"position", p}, {"from", k}}), [=](X &x) { x.memory(Lin(1)); x.p(); x.c(p); x.w(0); x.c(k); }, [=](X &x) { Bits a = x.word(x.mem, 0); a[p] = x.word(x.in, 0)[k]; memEq(x, {a}); }));
        for (int q : W == 8 || th ? all : cs) for (int same : {0, 1}) { prio = p == q || (p + q) % 5 == 0; for (std::string f : {"asgr", "asgc", "swapr", "fswap", "andr", "orr", "xorr", "cmp"}) add(mkCase("ref_" + f, W, D({{"position", p}, {"other", q}, {"same word", same}}), [=](X &x) { x.memory(Lin(2)); x.p(); x.c(p); x.p(Lin(same ? 0 : 1)); x.c(q); },
            [=](X &x) { std::vector<Bits> m{x.word(x.mem, 0), x.word(x.mem, 1)}; Node &u = m[0][p], &v = m[same ? 0 : 1][q], a = u, b = v; if (f == "asgr" || f == "asgc") u = b; else if (f == "swapr" || f == "fswap") { u = b; v = a; } else if (f == "andr") u = B.And(a, b); else if (f == "orr") u = B.Or(a, b); else if (f == "xorr") u = B.Xor(a, b);
              else { Node eq = B.Xnor(a, b), lt = B.And(B.Not(a), b), gt = B.And(a, B.Not(b)); retEq(x, Bits{eq, B.Not(eq), lt, B.Not(gt), gt, B.Not(lt)}); } memEq(x, m); })); } }
      prio = true; add(mkCase("ref_addr0", W, "", [=](X &x) { x.memory(Lin(3)); x.p(Lin(1)); x.o(); }, [=](X &x) { iterIs(x, 0, Pos{Lin(1), 0}); iterIs(x, 1, Pos{Lin(1), 0}); memSame(x); }));
    }
    if (g == "io") { // one character from / to a stream
      // mode: what the first read meets; two: another character follows
      auto chr = [=](X &x, int k) { Bits c(8); for (int i = 0; i < 8; i++) c[i] = B.atom(x.E->obj(*x.s, x.in).region, Lin(k), i); return c; };
      auto reading = [=](X &x, int mode, int two, Node old, Node &now) { Bits c = chr(x, 1), d = chr(x, 2); Node is0 = 1, is1 = 1; for (int i = 0; i < 8; i++) { is0 = B.And(is0, ('0' >> i & 1) ? c[i] : B.Not(c[i])); is1 = B.And(is1, ('1' >> i & 1) ? c[i] : B.Not(c[i])); }
        if (mode) is0 = is1 = 0; Node take = B.Or(is0, is1); now = B.ite(take, is1, old); Bits r(32, 0); r[1] = take; /* consumed */ r[3] = mode == 3; /* bad */ r[4] = mode == 1 || mode == 2; /* eof */ r[5] = B.Not(take); /* fail */
        /* the character the stream goes on with */ for (int i = 0; i < 8; i++) r[8 + i] = B.ite(take, two ? d[i] : 1, mode == 1 ? 1 : c[i]); r[16] = B.ite(take, !two, mode == 1); return r; };
      const char *mn[] = {"any character", "end of file", "stream not good", "buffer throws"}; prio = true;
      auto args = [=](X &x, int mode, int two) { auto put = [&](int k) { Bits c(32, 0), a = chr(x, k); for (int i = 0; i < 8; i++) c[i] = a[i]; x.reg(x.E->mkB(c)); }; if (mode == 1) x.reg(x.E->mkC(-1, 32)); else put(1); if (two) put(2); else x.reg(x.E->mkC(-1, 32)); x.reg(x.E->mkC(mode != 2, 1)); x.reg(x.E->mkC(mode == 3, 1)); };
      for (int m = 0; m < 4; m++) for (int two = 0; two < (m == 1 ? 1 : 2); two++) { std::string d = std::string(mn[m]) + (two ? ", another follows" : ""); if (W == 8) add(mkCase("io_readv", 8, d, [=](X &x) { x.memory(Lin(1)); x.b(0); args(x, m, two); }, [=](X &x) { Node now; Bits r = reading(x, m, two, x.flag(0), now); r[0] = now; retEq(x, r); }));
        for (int p : cs) add(mkCase("io_readr", W, d + D({{" position", p}}), [=](X &x) { x.memory(Lin(1)); x.p(); x.c(p); args(x, m, two); }, [=](X &x) { Node now; Bits a = x.word(x.mem, 0); Bits r = reading(x, m, two, a[p], now); retEq(x, r); a[p] = now; memEq(x, {a}); })); }
      auto text = [](Node v) { Bits r = konst('0' | 1 << 8, 32); r[0] = v; return r; };
      if (W == 8) add(mkCase("io_printv", 8, "", [=](X &x) { x.memory(Lin(1)); x.b(0); }, [=](X &x) { retEq(x, text(x.flag(0))); }));
      for (int p : cs) add(mkCase("io_printr", W, D({{"position", p}}), [=](X &x) { x.memory(Lin(1)); x.p(); x.c(p); }, [=](X &x) { retEq(x, text(x.word(x.mem, 0)[p])); memSame(x); }));
    }
    if (g == "dbg") { // the text of n words less j bits, of the bits f to l of them
      auto text = [&, W](const char *fn, int n, int j, int f, int l) {
        bool whole = !strcmp(fn, "dbgs"); if (whole) { f = 0; l = n * W - j; }
        Case c = mkCase(fn, W, D({{"words", n}, {"dropped", j}, {"from", f}, {"to", l}}), [=](X &x) { x.memory(Lin(n)); x.p(); x.c(n); x.c(j); if (!whole) { x.c(f); x.c(l); } }, [=](X &x) { memSame(x); bool ok = false; for (auto &e : x.s->notes) ok = ok || e == "text compared"; x.E->oblige("value", ok); if (!ok) x.E->report(*x.s, "value", nullptr, std::string(fn) + ": no text was produced"); });
        c.ext = [=](Engine &E, State &s, const CallBase *CB, const Function *, const std::string &nm, std::vector<Val> &a, Val &) -> bool {
          if (nm != "vp_str") return false;
          std::vector<Bits> want; int r = 0; for (size_t o = 0; o < s.objs.size(); o++) if (s.objs[o] && s.objs[o]->name == "memory") r = s.objs[o]->region;
          for (int k = 0; k < l - f; k++) { if (k && k % W == 0) want.push_back(konst(' ', 8)); else if (k && k % 8 == 0) want.push_back(konst('.', 8)); Bits ch = konst('0', 8); ch[0] = B.atom(r, Lin((f + k) / W), (f + k) % W); want.push_back(ch); }
          if (a[1].k != VLin || !a[1].l.isConst()) unk("text of data dependent length");
          bool ok = a[1].l.c == (i64)want.size(); E.oblige("value", ok); std::string why = "the text has " + str(a[1].l) + " characters, must have " + std::to_string(want.size());
          if (ok && !want.empty()) { if (a[0].k != VPtr) unk("text at an unknown address"); Bits got = E.readBits(s, a[0].obj, a[0].l, want.size(), false); for (size_t k = 0; k < want.size() && ok; k++) for (int b = 0; b < 8; b++) if (!E.nodeEq(s, E.simp(s, got[k * 8 + b]), want[k][b])) { ok = false; why = "character " + std::to_string(k) + " is wrong"; break; } E.oblige("value", ok); }
          if (!ok) E.report(s, "value", CB, std::string(fn) + ": " + why + " (" + E.C->desc + ")"); s.notes.push_back("text compared"); return true; };
        prio = n <= 2; add(c); };
      std::set<int> js = {0, 1, 7, W / 2, W - 1}; for (int n = 0; n <= (W == 8 ? 5 : W == 16 ? 3 : 2); n++) for (int j : js) if (n || !j) { text("dbgs", n, j, 0, 0);
        int S = n * W - j; for (int k = 0; k < (th ? 12 : 4); k++) { int f = S ? (int)(rng() % (S + 1)) : 0, l = f + (int)(rng() % (S - f + 1)); if (k == 0) f = 0, l = S; if (k == 1) f = std::min(S, 1); if (l < f) l = f; text("dbgr", n, j, f, l); } }
      for (int n : {9, 20, 33}) if (th || W == 8 || n == 9) { text("dbgs", n, 3, 0, 0); text("dbgr", n, 3, W + 5, n * W - 9); }
    }
    if (g == "val") {
      for (int p : all) { prio = p == 0 || p == W - 1; for (std::string f : {"val_ref", "val_refa"}) add(mkCase(f, W, D({{"position", p}}), [=](X &x) { x.memory(Lin(1)); x.p(); x.c(p); }, [=](X &x) { retEq(x, Bits{x.word(x.mem, 0)[p]}); memSame(x); }));
        for (std::string f : {"val_wp", "val_awp"}) add(mkCase(f, W, D({{"position", p}}), [=](X &x) { x.memory(Lin(1)); x.w(0); x.c(p); }, [=](X &x) { retEq(x, Bits{x.word(x.in, 0)[p]}); })); }
      prio = true; for (std::string f : {"val_w", "val_aw"}) add(mkCase(f, W, "", [=](X &x) { x.memory(Lin(1)); x.w(0); }, [=](X &x) { retEq(x, Bits{x.word(x.in, 0)[0]}); }));
      if (W == 8) { auto two = [&](const char *f, std::function<Bits(Node, Node)> want) { add(mkCase(f, 8, "", [=](X &x) { x.memory(Lin(1)); x.b(0); x.b(1); }, [=](X &x) { retEq(x, want(x.flag(0), x.flag(1))); })); };
        two("val_cmp", [](Node a, Node b) { Node eq = B.Xnor(a, b), lt = B.And(B.Not(a), b), gt = B.And(a, B.Not(b)); return Bits{eq, B.Not(eq), lt, B.Not(gt), gt, B.Not(lt)}; });
        two("val_bin", [](Node a, Node b) { return Bits{B.And(a, b), B.Or(a, b), B.Xor(a, b), B.Not(a)}; }); two("val_asg", [](Node a, Node b) { return Bits{B.And(a, b), B.Or(a, b), B.Xor(a, b), b}; });
        two("val_swap", [](Node a, Node b) { return Bits{b, a, b, a}; }); two("val_set", [](Node a, Node b) { return Bits{1, 0, B.Not(a), b, 0}; });
        add(mkCase("val_const", 8, "", [=](X &x) { x.memory(Lin(1)); }, [=](X &x) { retConst(x, 2 | 8); })); }
    }
  }
}
