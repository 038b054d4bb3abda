#include "engine.h"
#include <cmath>
#include <llvm/Demangle/Demangle.h>
#include <llvm/IR/Constants.h>
using namespace llvm;
typedef __int128 i128;
static const i64 PMAX = (i64)1 << 40;
void unk(const std::string &w) { throw Unknown{w}; }

// ---------------------------------------------------------------- reasoning
static void interval(const Lin &e, i128 &mn, i128 &mx) {
  mn = mx = e.c;
  for (auto &p : e.t) {
    i128 hi = gLV[p.first].kind == LV_BIT ? 1 : PMAX; if (gLV[p.first].kind == LV_SUM) hi = (i128)PMAX * 64;
    if (p.second > 0) mx += (i128)p.second * hi; else mn += (i128)p.second * hi;
  }
}
static i128 g128(i128 a, i128 b) { if (a < 0) a = -a; if (b < 0) b = -b; while (b) { i128 t = a % b; a = b; b = t; } return a; }
typedef std::vector<i128> Row; // coefs..., const  ; meaning sum >= 0
static bool normRow(Row &r) { // integer tightening; returns false if trivially true
  i128 g = 0; for (size_t i = 0; i + 1 < r.size(); i++) g = g128(g, r[i]);
  if (!g) return r.back() < 0;
  if (g > 1) { for (size_t i = 0; i + 1 < r.size(); i++) r[i] /= g; i128 c = r.back(); i128 q = c / g; if (c % g && c < 0) q--; r.back() = q; }
  return true;
}
// of rows with the same coefficients only the strongest matters
static void strongest(std::vector<Row> &rows) { std::sort(rows.begin(), rows.end()); size_t n = 0; for (size_t i = 0; i < rows.size(); i++) { if (n && std::equal(rows[n - 1].begin(), rows[n - 1].end() - 1, rows[i].begin())) continue; if (n != i) rows[n] = std::move(rows[i]); n++; } rows.resize(n); }
static bool infeasible(std::vector<Row> rows, int nv) {
  strongest(rows);
  { for (auto &r : rows) { Row m(r); for (int i = 0; i < nv; i++) m[i] = -r[i]; m[nv] = -((i128)1 << 120); auto it = std::lower_bound(rows.begin(), rows.end(), m); if (it != rows.end() && std::equal(m.begin(), m.end() - 1, it->begin()) && it->back() + r.back() < 0) return true; } }
  for (int v = 0; v < nv; v++) {
    // choose var with the fewest products
    int best = -1; size_t bc = ~0ul; 
    for (int x = 0; x < nv; x++) { size_t p = 0, m = 0; for (auto &r : rows) { if (r[x] > 0) p++; else if (r[x] < 0) m++; } if (p + m == 0) continue; size_t c = p * m; if (c < bc) { bc = c; best = x; } }
    if (best < 0) break;
    std::vector<Row> nr, P, Mi; 
    for (auto &r : rows) { if (r[best] > 0) P.push_back(r); else if (r[best] < 0) Mi.push_back(r); else nr.push_back(r); }
    if (P.size() * Mi.size() + nr.size() > 600) return false;
    for (auto &p : P) for (auto &m : Mi) {
      Row r(p.size()); i128 a = -m[best], b = p[best]; bool big = false;
      for (size_t i = 0; i < r.size(); i++) { r[i] = p[i] * a + m[i] * b; if (r[i] > ((i128)1 << 100) || r[i] < -((i128)1 << 100)) big = true; }
      if (big) continue;
      if (!normRow(r)) continue;
      bool z = true; for (size_t i = 0; i + 1 < r.size(); i++) if (r[i]) { z = false; break; }
      if (z) { if (r.back() < 0) return true; continue; }
      nr.push_back(r);
    }
    strongest(nr);
    rows.swap(nr);
  }
  for (auto &r : rows) { bool z = true; for (size_t i = 0; i + 1 < r.size(); i++) if (r[i]) z = false; if (z && r.back() < 0) return true; }
  return false;
}
static bool fmInfeasible(const std::vector<Lin> &facts, const Lin *extra) {
  // restrict to the facts connected with extra
  std::vector<const Lin *> use; std::map<int, int> vid; std::vector<int> vars;
  auto addv = [&](const Lin &l) { bool ch = false; for (auto &p : l.t) if (!vid.count(p.first)) { vid[p.first] = vars.size(); vars.push_back(p.first); ch = true; } return ch; };
  std::vector<char> used(facts.size(), 0);
  if (extra) addv(*extra); 
  bool ch = true;
  while (ch) { ch = false; for (size_t i = 0; i < facts.size(); i++) if (!used[i]) { bool t = !extra; for (auto &p : facts[i].t) if (vid.count(p.first)) t = true; if (t) { used[i] = 1; use.push_back(&facts[i]); addv(facts[i]); ch = true; } } }
  if (vars.size() > 14) return false;
  int nv = vars.size(); std::vector<Row> rows;
  auto add = [&](const Lin &l) { Row r(nv + 1, 0); for (auto &p : l.t) r[vid[p.first]] = p.second; r[nv] = l.c; if (normRow(r)) rows.push_back(r); };
  if (extra) add(*extra); for (auto *f : use) add(*f);
  for (int i = 0; i < nv; i++) { Row r(nv + 1, 0); r[i] = 1; rows.push_back(r); if (gLV[vars[i]].kind == LV_BIT) { Row q(nv + 1, 0); q[i] = -1; q[nv] = 1; rows.push_back(q); } }
  for (auto &r : rows) { bool z = true; for (int i = 0; i < nv; i++) if (r[i]) z = false; if (z && r[nv] < 0) return true; }
  return infeasible(rows, nv);
}
bool Engine::proveGE0(const State &s, const Lin &e) {
  if (e.isConst()) return e.c >= 0;
  i128 mn, mx; interval(e, mn, mx); if (mn >= 0) return true; if (mx < 0) return false;
  if (s.ge.empty()) return false;
  Lin neg = e * -1; neg.c -= 1; return fmInfeasible(s.ge, &neg);
}
bool Engine::proveEQ0(const State &s, const Lin &e) { if (e.isConst()) return e.c == 0; return proveGE0(s, e) && proveGE0(s, e * -1); }
bool Engine::satisfiable(const State &s, std::map<int, i64> *model) {
  if (fmInfeasible(s.ge, nullptr)) return false;
  std::set<int> vs; for (auto &f : s.ge) for (auto &p : f.t) if (gLV[p.first].kind == LV_PARAM) vs.insert(p.first);
  std::vector<int> v(vs.begin(), vs.end()); std::map<int, i64> m; std::vector<i64> base(v.size(), 0);
  // search near the provable minimum of each quantity
  for (size_t i = 0; i < v.size(); i++) { auto above = [&](i64 k) { return proveGE0(s, Lin::var(v[i]) - Lin(k)); }; if (!above(4)) continue; i64 lo = 4, hi = 8; while (hi < ((i64)1 << 40) && above(hi)) { lo = hi; hi *= 2; } while (hi - lo > 1) { i64 md = lo + (hi - lo) / 2; if (above(md)) lo = md; else hi = md; } base[i] = lo; }
  for (int lim : {2, 5, 9, 24, 70}) {
    if (v.size() && pow((double)lim, v.size()) > 3e5) { if (lim > 2) break; }
    std::vector<i64> a(v.size(), 0); long guard = 0;
    for (;;) {
      if (++guard > 400000) break;
      bool ok = true; for (auto &f : s.ge) { i64 x = f.c; bool skip = false; for (auto &p : f.t) { if (gLV[p.first].kind != LV_PARAM) { skip = true; break; } size_t k = std::lower_bound(v.begin(), v.end(), p.first) - v.begin(); x += p.second * (base[k] + a[k]); } if (!skip && x < 0) { ok = false; break; } }
      if (ok) { for (size_t i = 0; i < v.size(); i++) m[v[i]] = base[i] + a[i]; if (model) *model = m; return true; }
      size_t i = 0; while (i < a.size() && ++a[i] >= lim) a[i++] = 0; if (i == a.size()) break;
    }
  }
  return false;
}
bool Engine::decideGE0(State &s, const Lin &e, const char *what) {
  if (e.isConst()) return e.c >= 0;
  i128 mn, mx; interval(e, mn, mx); if (mn >= 0) return true; if (mx < 0) return false;
  bool bits = false; for (auto &p : e.t) if (gLV[p.first].kind != LV_PARAM) bits = true;
  if (proveGE0(s, e)) { if (s.logProved) s.ge.push_back(e); return true; } Lin ne = e * -1; ne.c -= 1; if (proveGE0(s, ne)) { if (s.logProved) s.ge.push_back(ne); return false; }
  if (bits) unk("comparison of a bit-sum");
  ForkEx f; f.lin = true; Alt a, b; a.ge.push_back(e); a.what = str(e) + ">=0"; b.ge.push_back(ne); b.what = str(e) + "<0"; f.alts = {a, b}; throw f;
}
bool Engine::decideEQ0(State &s, const Lin &e) {
  if (e.isConst()) return e.c == 0;
  Lin n = e * -1; Lin e1 = e, n1 = n; e1.c -= 1; n1.c -= 1;
  if (proveGE0(s, e1)) { if (s.logProved) s.ge.push_back(e1); return false; } if (proveGE0(s, n1)) { if (s.logProved) s.ge.push_back(n1); return false; }
  bool g = proveGE0(s, e), l = proveGE0(s, n); if (g && l) return true;
  // gcd test
  i64 gg = 0; for (auto &p : e.t) gg = std::__gcd(gg, p.second < 0 ? -p.second : p.second); if (gg > 1 && e.c % gg) return false;
  for (auto &p : e.t) if (gLV[p.first].kind != LV_PARAM) unk("comparison of a bit-sum");
  ForkEx f; f.lin = true; Alt a; a.eq.push_back(e); a.what = str(e) + "==0"; f.alts.push_back(a);
  if (!l) { Alt b; b.ge.push_back(e1); b.what = str(e) + ">0"; f.alts.push_back(b); }
  if (!g) { Alt c; c.ge.push_back(n1); c.what = str(e) + "<0"; f.alts.push_back(c); }
  throw f;
}
Node Engine::substNode(Node n, int v, const Lin &by, std::unordered_map<Node, Node> &memo) {
  if (n < 2 || n == ~0u) return n;
  return B.rename(n, [&](uint32_t var) -> Node {
    VarDesc d = B.vars[var];
    if (d.kind == VD_ATOM) { if (!d.idx.coef(v)) return B.mk(var, 0, 1); return B.atom(d.region, substVar(d.idx, v, by), d.bit); }
    if (d.kind == VD_FUN) { std::vector<Node> a; bool ch = false; for (Node x : d.args) { Node y = substNode(x, v, by, memo); ch |= x != y; a.push_back(y); } return ch ? B.fun(d.fn, a) : B.mk(var, 0, 1); }
    return B.mk(var, 0, 1);
  }, memo);
}
Node Engine::simp(const State &s, Node n) {
  if (n < 2 || n == ~0u || (s.asg.empty() && s.fs.empty())) return n;
  std::unordered_map<Node, Node> memo; 
  std::function<Node(uint32_t)> m = [&](uint32_t var) -> Node {
    auto it = s.asg.find(var);
    if (it != s.asg.end()) { if (it->second < 2) return it->second; return B.rename(it->second, m, memo); }
    VarDesc d = B.vars[var];
    if (d.kind == VD_ATOM) {
      for (auto &f : s.fs) if (f.region == d.region && f.v[d.bit] != ~0u && proveGE0(s, d.idx - f.lo) && proveGE0(s, f.hi - d.idx - Lin(1))) {
        std::unordered_map<Node, Node> m2; Node r = substNode(f.v[d.bit], J, d.idx, m2); if (r == B.mk(var, 0, 1)) continue; return r < 2 ? r : B.rename(r, m, memo);
      }
    } else if (d.kind == VD_FUN) { std::vector<Node> a; for (Node x : d.args) a.push_back(B.rename(x, m, memo)); return B.fun(d.fn, a); }
    return B.mk(var, 0, 1);
  };
  return B.rename(n, m, memo);
}
bool Engine::addNode(State &s, Node n, bool v) {
  n = simp(s, n); if (!v) n = B.Not(n);
  if (n == 1) return true; if (n == 0) return false;
  Bdd::N x = B.n[n];
  auto assign = [&](uint32_t var, Node val) {
    s.asg[var] = val; s.alog.push_back({var, val});
    if (!s.resid.empty()) { std::vector<Node> r; r.swap(s.resid); for (Node q : r) if (!addNode(s, q, true)) return false; }
    return true;
  };
  if (x.lo == 0) { if (x.hi == 1) return assign(x.var, 1); if (!assign(x.var, 1)) return false; return addNode(s, x.hi, true); }
  if (x.hi == 0) { if (x.lo == 1) return assign(x.var, 0); if (!assign(x.var, 0)) return false; return addNode(s, x.lo, true); }
  uint32_t y, y2; bool p, p2;
  if (B.isLit(x.lo, y, p) && B.isLit(x.hi, y2, p2) && y == y2 && p != p2) { // x == hi-literal
    uint32_t a = x.var, b = y; // eliminate the one of the larger region, else the later one
    bool elimB; const VarDesc &da = B.vars[a], &db = B.vars[b];
    if (da.kind == VD_ATOM && db.kind == VD_ATOM && da.region != db.region) elimB = db.region > da.region; else elimB = b > a;
    // a == (p2 ? b : ~b)
    if (elimB) { Node la = B.mk(a, 0, 1); return assign(b, p2 ? la : B.Not(la)); }
    Node lb = B.mk(b, 0, 1); return assign(a, p2 ? lb : B.Not(lb));
  }
  for (Node q : s.resid) if (q == n) return true;
  s.resid.push_back(n);
  // contradiction with the conjunction of residual facts that share support
  if (s.resid.size() <= 40) { Node c = 1; size_t n0 = B.n.size(); for (Node q : s.resid) { c = B.And(c, q); if (c == 0) return false; if (B.n.size() - n0 > 20000) break; } }
  return true;
}
// the conjunction of the residual facts (those that are not equalities of literals)
static Node residConj(State &s) { Node c = 1; size_t n0 = B.n.size(); for (Node q : s.resid) { c = B.And(c, q); if (B.n.size() - n0 > 20000) break; } return c; }
// 0/1 when the path condition settles n, otherwise the simplified n
static Node settle(Node c, Node n) { if (n < 2 || c == 1) return n; if (B.And(c, n) == 0) return 0; if (B.And(c, B.Not(n)) == 0) return 1; return n; }
bool Engine::decideNode(State &s, Node n) {
  n = simp(s, n); if (n < 2) return n; n = settle(residConj(s), n); if (n < 2) return n;
  ForkEx f; f.lin = false; Alt a, b; a.nodes.push_back({n, true}); a.what = strNode(n, 1) + "=1"; b.nodes.push_back({n, false}); b.what = strNode(n, 1) + "=0"; f.alts = {a, b}; throw f;
}
bool Engine::decideAll(State &s, std::vector<Node> conj) {
  Node rc = residConj(s); std::vector<Node> u; for (Node c : conj) { c = settle(rc, simp(s, c)); if (c == 0) return false; if (c != 1) u.push_back(c); }
  if (u.empty()) return true; if (u.size() == 1) return decideNode(s, u[0]);
  ForkEx f; f.lin = false; Alt all; for (Node c : u) all.nodes.push_back({c, true}); all.what = "all of " + std::to_string(u.size()) + " bits agree"; f.alts.push_back(all);
  for (size_t i = 0; i < u.size(); i++) { Alt a; for (size_t j = 0; j < i; j++) a.nodes.push_back({u[j], true}); a.nodes.push_back({u[i], false}); a.what = "first disagreement " + strNode(u[i], 1); f.alts.push_back(a); }
  throw f;
}
int Engine::decideFirstSet(State &s, const Bits &b) {
  Node rc = residConj(s); std::vector<Node> v; bool open = false; 
  for (size_t i = 0; i < b.size(); i++) { Node c = settle(rc, simp(s, b[i])); v.push_back(c); if (!open && c == 1) return i; if (c != 0) open = true; }
  if (!open) return b.size();
  ForkEx f; f.lin = false; Alt pre; bool ended = false;
  for (size_t i = 0; i < v.size(); i++) { if (v[i] == 0) continue; Alt a = pre; if (v[i] != 1) a.nodes.push_back({v[i], true}); a.what = "first set bit is " + std::to_string(i); f.alts.push_back(a); if (v[i] == 1) { ended = true; break; } pre.nodes.push_back({v[i], false}); }
  if (!ended) { pre.what = "no bit set"; f.alts.push_back(pre); }
  throw f;
}
static Val substVal(Engine &E, Val v, int x, const Lin &by, std::unordered_map<Node, Node> &memo) {
  if (v.k == VLin || v.k == VPtr) { if (v.l.coef(x)) v.l = substVar(v.l, x, by); }
  else if (v.k == VBits) { bool ch = false; auto nb = std::make_shared<Bits>(*v.b); for (auto &n : *nb) { Node m = E.substNode(n, x, by, memo); if (m != n) { n = m; ch = true; } } if (ch) v.b = nb; }
  else if (v.k == VAgg) { auto na = std::make_shared<std::vector<Val>>(*v.agg); for (auto &q : *na) q = substVal(E, q, x, by, memo); v.agg = na; }
  return v;
}
void Engine::substState(State &s, int x, const Lin &by, bool rec) {
  std::unordered_map<Node, Node> memo;
  for (auto &fp : s.st) { auto f = std::make_shared<Frame>(*fp); for (auto &v : f->r) v = substVal(*this, v, x, by, memo); if (rec) f->lh.clear(); fp = f; }
  for (auto &op : s.objs) { if (!op || !op->alive) continue; auto o = std::make_shared<Obj>(*op); o->len = substVar(o->len, x, by);
    for (auto &g : o->segs) { g.lo = substVar(g.lo, x, by); g.hi = substVar(g.hi, x, by); bool ch = false; auto t = std::make_shared<Tmpl>(*g.t); for (auto &n : t->b) { Node m = substNode(n, x, by, memo); if (m != n) { n = m; ch = true; } } if (ch) g.t = t; }
    for (auto &c : o->cells) c.second.v = substVal(*this, c.second.v, x, by, memo); op = o; }
  for (auto &f : s.ge) f = substVar(f, x, by);
  s.ge.erase(std::remove_if(s.ge.begin(), s.ge.end(), [&](const Lin &l) { return l.isConst() && l.c >= 0; }), s.ge.end());
  std::map<uint32_t, Node> na; for (auto &p : s.asg) { Node k = substNode(B.mk(p.first, 0, 1), x, by, memo); Node v = substNode(p.second, x, by, memo); if (k < 2) continue; na[B.n[k].var] = v; } s.asg.swap(na);
  for (auto &n : s.resid) n = substNode(n, x, by, memo);
  for (auto &f : s.fs) { f.lo = substVar(f.lo, x, by); f.hi = substVar(f.hi, x, by); for (auto &n : f.v) n = substNode(n, x, by, memo); }
  s.ret = substVal(*this, s.ret, x, by, memo);
  if (rec) { s.wlog.clear(); s.alog.clear(); s.substs.push_back({x, by}); }
}
bool Engine::addGe(State &s, const Lin &e) {
  if (e.isConst()) return e.c >= 0;
  if (proveGE0(s, e)) return true; Lin n = e * -1; Lin n1 = n; n1.c -= 1; if (proveGE0(s, n1)) return false;
  if (proveGE0(s, n)) return addEq(s, e);
  s.ge.push_back(e); return !fmInfeasible(s.ge, &e);
}
bool Engine::addEq(State &s, const Lin &e) {
  if (e.isConst()) return e.c == 0;
  i64 g = 0; int best = -1; for (auto &p : e.t) { g = std::__gcd(g, p.second < 0 ? -p.second : p.second); if ((p.second == 1 || p.second == -1) && gLV[p.first].kind == LV_PARAM && !gLV[p.first].bound) best = std::max(best, p.first); }
  if (g > 1 && e.c % g) return false;
  if (g > 1 && best < 0) { Lin q; q.c = e.c / g; for (auto &p : e.t) q.t.push_back({p.first, p.second / g}); return addEq(s, q); }
  if (best < 0) { s.ge.push_back(e); s.ge.push_back(e * -1); return !fmInfeasible(s.ge, &e); }
  i64 k = e.coef(best); Lin rest = substVar(e, best, Lin(0)); Lin by = k == 1 ? rest * -1 : rest;
  substState(s, best, by); 
  if (!by.isConst()) { i128 mn, mx; interval(by, mn, mx); if (mn < 0) { if (!addGe(s, by)) return false; } } else if (by.c < 0) return false;
  return !fmInfeasible(s.ge, nullptr);
}
void Engine::apply(const State &s0, const Alt &a, std::vector<State> &out) {
  State s = s0; s.path.push_back({curI, a.what});
  if (a.budget != -2) s.allocBudget = a.budget;
  for (auto &p : a.subst) { i128 mn, mx; substState(s, p.first, p.second); interval(p.second, mn, mx); if (mn < 0 && !addGe(s, p.second)) { cs.infeasible++; return; } }
  for (auto &e : a.eq) if (!addEq(s, s.norm(e))) { cs.infeasible++; return; }
  for (auto &e : a.ge) if (!addGe(s, s.norm(e))) { cs.infeasible++; return; }
  for (auto &n : a.nodes) { Node q = n.first; if (!addNode(s, q, n.second)) { cs.infeasible++; return; } }
  // integer split of a quantity confined to a narrow range
  for (auto &e0 : a.ge) {
    Lin e = s.norm(e0); if (e.isConst()) continue; bool par = true; for (auto &p : e.t) if (gLV[p.first].kind != LV_PARAM) par = false; if (!par || e.t.size() < 1) continue;
    for (int c = 1; c <= 3; c++) if (proveGE0(s, Lin(c) - e)) {
      for (int v = 0; v <= c; v++) { State t = s; if (addEq(t, e - Lin(v))) { t.linForks++; out.push_back(t); } }
      return;
    }
  }
  out.push_back(s);
}
Lin Engine::floorDiv(State &s, const Lin &e, i64 d) {
  if (d <= 0) unk("division by non-positive");
  Lin q; q.c = e.c >= 0 ? e.c / d : -((-e.c + d - 1) / d);
  for (auto &p : e.t) {
    if (p.second % d) {
      if (gLV[p.first].kind != LV_PARAM || gLV[p.first].bound) unk("division of a bit-sum");
      i64 m = d / std::__gcd(d, p.second < 0 ? -p.second : p.second); if (m > 64) unk("division modulus too large");
      if (m > 4 && gLV[p.first].name[0] == 'k') { auto h = kHead.find(p.first); if (h != kHead.end() && !minArr.count(h->second)) throw Retry{h->second}; unk("residue of a summarised loop counter"); }
      int x = newParam(gLV[p.first].name + "'"); if (kHead.count(p.first)) kHead[x] = kHead[p.first]; ForkEx f; f.lin = true;
      for (i64 r = 0; r < m; r++) { Alt a; a.subst.push_back({p.first, Lin::var(x, m) + Lin(r)}); a.what = gLV[p.first].name + " mod " + std::to_string(m) + " = " + std::to_string(r); f.alts.push_back(a); }
      throw f;
    }
    q.t.push_back({p.first, p.second / d});
  }
  return q;
}
// ---------------------------------------------------------------- values
static i64 sext(uint64_t v, unsigned w) { if (w >= 64) return (i64)v; uint64_t m = (1ull << w) - 1; v &= m; return (v >> (w - 1)) & 1 ? (i64)(v | ~m) : (i64)v; }
Val Engine::mkC(i64 v, unsigned w) { Val r; r.k = VLin; r.w = w; r.l = Lin(sext((uint64_t)v, w)); return r; }
Val Engine::mkL(const Lin &l, unsigned w) { if (l.isConst()) return mkC(l.c, w); Val r; r.k = VLin; r.w = w; r.l = l; return r; }
Val Engine::mkB(Bits b) {
  unsigned w = b.size();
  if (w <= 64) { bool c = true; uint64_t v = 0; for (unsigned i = 0; i < w; i++) { if (b[i] > 1) { c = false; break; } v |= (uint64_t)b[i] << i; } if (c) return mkC((i64)v, w); }
  Val r; r.k = VBits; r.w = w; r.b = std::make_shared<Bits>(std::move(b)); return r;
}
Val Engine::mkP(int o, const Lin &off) { Val r; r.k = VPtr; r.w = 64; r.obj = o; r.l = off; return r; }
Val Engine::mkTop(unsigned w, const std::string &why) { Val r; r.k = VTop; r.w = w; r.why = why; return r; }
Bits Engine::undefBits(unsigned w, const std::string &why) { Bits b(w); for (auto &n : b) n = B.undef(why); return b; }
uint64_t Engine::uval(const Val &v) { uint64_t x = (uint64_t)v.l.c; return v.w >= 64 ? x : x & ((1ull << v.w) - 1); }
i64 Engine::sval(const Val &v) { return v.l.c; }
Bits Engine::ripple(const Bits &a, const Bits &b, Node cin, Node *cout) {
  Bits r(a.size()); Node c = cin;
  for (size_t i = 0; i < a.size(); i++) { Node x = B.Xor(a[i], b[i]); r[i] = B.Xor(x, c); c = B.Or(B.And(a[i], b[i]), B.And(x, c)); }
  if (cout) *cout = c; return r;
}
Bits Engine::linBits(const Lin &l, unsigned w) {
  Bits acc(w); for (unsigned i = 0; i < w; i++) acc[i] = i < 64 ? ((uint64_t)l.c >> i) & 1 : (l.c < 0);
  if (l.t.size() > 130) unk("bit-sum too wide");
  for (auto &p : l.t) {
    if (gLV[p.first].kind != LV_BIT) unk("bit view of an unbounded quantity");
    Bits ad(w, 0); uint64_t k = (uint64_t)p.second; for (unsigned i = 0; i < w && i < 64; i++) if ((k >> i) & 1) ad[i] = gLV[p.first].node; if (p.second < 0) for (unsigned i = 64; i < w; i++) ad[i] = gLV[p.first].node;
    acc = ripple(acc, ad, 0);
  }
  return acc;
}
Bits Engine::toBits(const Val &v) {
  if (v.k == VBits) return *v.b;
  if (v.k == VLin) { if (v.l.isConst()) { Bits b(v.w); for (unsigned i = 0; i < v.w; i++) b[i] = i < 64 ? ((uint64_t)v.l.c >> i) & 1 : (v.l.c < 0); return b; } return linBits(v.l, v.w); }
  if (v.k == VTop) unk("unknown value: " + v.why);
  if (v.k == VAgg && v.w) { Bits r; for (auto &x : *v.agg) { Bits b = toBits(x); r.insert(r.end(), b.begin(), b.end()); } return r; }
  unk("bit view of a pointer or aggregate");
}
// vectors whose elements are affine quantities are kept element by element (an aggregate with a width)
std::vector<Val> Engine::lanes(const Val &v, unsigned n, unsigned ew) {
  if (v.k == VAgg && v.w && v.agg->size() == n && (*v.agg)[0].w == ew) return *v.agg;
  Bits b = toBits(v); std::vector<Val> r; for (unsigned i = 0; i < n; i++) r.push_back(mkB(Bits(b.begin() + i * ew, b.begin() + (i + 1) * ew))); return r;
}
Val Engine::mkLanes(std::vector<Val> v) {
  bool aff = false; unsigned w = 0; for (auto &x : v) { w += x.w; if (x.k == VLin && !x.l.isConst()) aff = true; if (x.k == VTop) return x; }
  Val r; if (!aff) { Bits b; for (auto &x : v) { Bits e = toBits(x); b.insert(b.end(), e.begin(), e.end()); } return mkB(b); }
  r.k = VAgg; r.w = w; r.agg = std::make_shared<std::vector<Val>>(std::move(v)); return r;
}
Val Engine::sliceVal(const Val &v, unsigned lo, unsigned w) { if (v.k == VAgg && v.w && lo % w == 0 && (*v.agg)[0].w == w) return (*v.agg)[lo / w]; Bits b = toBits(v); return mkB(Bits(b.begin() + lo, b.begin() + lo + w)); }
unsigned Engine::width(Type *t) {
  if (t->isIntegerTy()) return t->getIntegerBitWidth(); if (t->isPointerTy()) return 64; if (t->isDoubleTy()) return 64; if (t->isFloatTy()) return 32;
  if (auto *v = dyn_cast<FixedVectorType>(t)) return v->getNumElements() * width(v->getElementType());
  return 0;
}
// ---------------------------------------------------------------- objects and memory
State Engine::newState() { State s; ObjP n = std::make_shared<Obj>(); n->name = "null"; n->alive = false; s.objs.push_back(n); if (regionNames.empty()) { regionNames.push_back("null"); regionUninit.push_back(0); } return s; }
int Engine::newObj(State &s, const std::string &name, bool words, int elem, const Lin &len, bool uninit) {
  auto o = std::make_shared<Obj>(); o->id = s.objs.size(); o->name = name; o->words = words; o->elem = elem; o->len = len; o->uninit = uninit;
  o->region = regionNames.size(); regionNames.push_back(name); regionUninit.push_back(uninit);
  if (words) { auto t = std::make_shared<Tmpl>(); t->hasJ = true; for (int b = 0; b < elem * 8; b++) t->b.push_back(B.atom(o->region, Lin::var(J), b)); o->segs.push_back({Lin(0), len, t, nullptr}); }
  s.objs.push_back(o); return o->id;
}
Obj &Engine::mut(State &s, int id) { if (s.objs[id].use_count() > 1) s.objs[id] = std::make_shared<Obj>(*s.objs[id]); return *s.objs[id]; }
Frame &Engine::top(State &s) { auto &f = s.st.back(); if (f.use_count() > 1) f = std::make_shared<Frame>(*f); return *f; }
TmplP Engine::elemT(Bits b) { auto t = std::make_shared<Tmpl>(); t->b = std::move(b); return t; }
Bits Engine::tmplAt(const TmplP &t, const Lin &idx) {
  if (!t->hasJ) return t->b; Bits r; r.reserve(t->b.size()); std::unordered_map<Node, Node> memo;
  for (Node n : t->b) {
    uint32_t v; bool p;
    if (n != ~0u && B.isLit(n, v, p) && B.vars[v].kind == VD_ATOM) { VarDesc d = B.vars[v]; Node a = B.atom(d.region, substVar(d.idx, J, idx), d.bit); r.push_back(p ? a : B.Not(a)); }
    else r.push_back(n < 2 ? n : substNode(n, J, idx, memo));
  }
  return r;
}
TmplP Engine::tmplShift(const TmplP &t, const Lin &je) { if (!t->hasJ) return t; auto r = std::make_shared<Tmpl>(); r->b = tmplAt(t, je); r->hasJ = true; return r; }
const Seg &Engine::findSeg(State &s, int o, const Lin &idx) {
  const Obj &ob = obj(s, o);
  for (auto &g : ob.segs) if (proveGE0(s, idx - g.lo) && proveGE0(s, g.hi - idx - Lin(1))) return g;
  for (auto &g : ob.segs) if (decideGE0(s, g.hi - idx - Lin(1))) { if (!decideGE0(s, idx - g.lo)) unk("segment gap"); return g; }
  unk("index outside all segments");
}
Bits Engine::getElem(State &s, int o, const Lin &idx) { const Seg &g = findSeg(s, o, idx); TmplP t = g.t; return tmplAt(t, idx); }
void Engine::overlay(State &s, Obj &ob, const Lin &lo, const Lin &hi, TmplP t, const Instruction *src) { overlayList(s, ob, lo, hi, {{lo, hi, t, src}}); }
void Engine::overlayList(State &s, Obj &ob, const Lin &lo, const Lin &hi, const std::vector<Seg> &pcs) {
  if (proveGE0(s, lo - hi)) return;
  std::vector<Seg> out; bool ins = false;
  for (auto &x : ob.segs) {
    if (proveGE0(s, x.lo - x.hi)) continue;
    if (proveGE0(s, lo - x.hi) || (!proveGE0(s, x.hi - lo) && decideGE0(s, lo - x.hi))) { out.push_back(x); continue; }
    if (!ins && decideGE0(s, x.lo - lo)) { out.insert(out.end(), pcs.begin(), pcs.end()); ins = true; }
    if (proveGE0(s, x.lo - hi) || (!proveGE0(s, hi - x.lo) && decideGE0(s, x.lo - hi))) { out.push_back(x); continue; }
    if (!decideGE0(s, x.lo - lo)) { Seg l = x; l.hi = lo; out.push_back(l); if (!ins) { out.insert(out.end(), pcs.begin(), pcs.end()); ins = true; } }
    if (proveGE0(s, hi - x.hi)) continue;
    if (proveGE0(s, x.hi - hi) || decideGE0(s, x.hi - hi - Lin(1))) { Seg r = x; r.lo = hi; out.push_back(r); }
  }
  if (!ins) out.insert(out.end(), pcs.begin(), pcs.end());
  ob.segs.swap(out);
}
void Engine::setElem(State &s, int o, const Lin &idx, const Bits &b, const Instruction *src) {
  Obj tmp = obj(s, o); TmplP t = elemT(b); overlay(s, tmp, idx, idx + Lin(1), t, src);
  s.objs[o] = std::make_shared<Obj>(std::move(tmp)); s.wlog.push_back({o, idx, t, src, false});
}
std::vector<Seg> Engine::cutSegs(State &s, int o, const Lin &lo, const Lin &hi) {
  std::vector<Seg> out; Obj ob = obj(s, o);
  for (auto &x : ob.segs) {
    if (proveGE0(s, x.lo - x.hi)) continue;
    if (decideGE0(s, lo - x.hi)) continue; if (decideGE0(s, x.lo - hi)) break;
    Seg g = x; if (!decideGE0(s, x.lo - lo)) g.lo = lo; if (decideGE0(s, x.hi - hi - Lin(1))) g.hi = hi; out.push_back(g);
  }
  return out;
}
bool Engine::bounds(State &s, int o, const Lin &off, const Lin &n, bool write, const char *what) {
  const Obj &ob = obj(s, o); std::string k = write ? "oob-write" : "oob-read";
  if (o == 0) { report(s, k, curI, std::string(what) + " through a null pointer"); return false; }
  if (!ob.alive) { report(s, "use-after-free", curI, std::string(what) + " of released storage " + ob.name); return false; }
  Lin total = ob.words ? ob.len * ob.elem : ob.len;
  bool lo = decideGE0(s, off, "offset"), hi = lo && decideGE0(s, total - off - n, "bound");
  if (!lo || !hi) {
    report(s, k, curI, std::string(what) + " of " + str(n) + " byte(s) at byte offset " + str(off) + " of " + ob.name + " which has " + str(total) + " byte(s)"); return false;
  }
  if (!inCheck) oblige("memory-bounds", true);
  if (write && !inCheck && (ob.words || (ob.global && !s.guards)) && std::find(s.objEvents.begin(), s.objEvents.end(), o) == s.objEvents.end()) s.objEvents.push_back(o);
  if (write && ob.frozen && !inCheck) report(s, "read-only", curI, std::string("store to ") + ob.name + " while it is only being read");
  if (write && ob.ro) report(s, "write-to-const", curI, "store to read-only object " + ob.name);
  return true;
}
Bits Engine::readBits(State &s, int o, const Lin &off, unsigned bytes, bool check) {
  if (check && !bounds(s, o, off, Lin(bytes), false, "read")) return undefBits(bytes * 8, "out-of-bounds read");
  const Obj &ob = obj(s, o); Bits r;
  if (ob.words) {
    int E = ob.elem; for (auto &p : off.t) if (p.second % E) { floorDiv(s, off, E); unk("unaligned symbolic access"); }
    i64 fc = off.c >= 0 ? off.c / E : -((-off.c + E - 1) / E); int sub = off.c - fc * E; Lin idx = substVar(off, -1, Lin(0)); idx.c = fc; for (auto &p : idx.t) p.second /= E;
    Bits acc; int ne = (sub + bytes + E - 1) / E; for (int i = 0; i < ne; i++) { Bits e = getElem(s, o, idx + Lin(i)); acc.insert(acc.end(), e.begin(), e.end()); }
    r.assign(acc.begin() + sub * 8, acc.begin() + (sub + bytes) * 8); 
    for (auto &n : r) n = simp(s, n);
    return r;
  }
  if (!off.isConst()) unk("symbolic offset into a scalar object");
  i64 p = off.c, e = off.c + bytes;
  while (p < e) {
    auto it = ob.cells.upper_bound(p); bool hit = false;
    if (it != ob.cells.begin()) { --it; if (it->first <= p && p < it->first + (i64)it->second.sz) { Bits c = toBits(it->second.v); if (c.size() < it->second.sz * 8) c.resize(it->second.sz * 8, 0); i64 q = std::min<i64>(e, it->first + it->second.sz); r.insert(r.end(), c.begin() + (p - it->first) * 8, c.begin() + (q - it->first) * 8); p = q; hit = true; } }
    if (!hit) { if (ob.name == "zeroinit") r.insert(r.end(), 8, 0); else { Bits u = undefBits(8, "uninitialised " + ob.name); r.insert(r.end(), u.begin(), u.end()); } p++; }
  }
  return r;
}
static void carve(Engine &E, Obj &ob, i64 lo, i64 hi) { // remove [lo,hi) from the cells, keeping the outside parts
  auto it = ob.cells.lower_bound(lo); if (it != ob.cells.begin()) --it;
  while (it != ob.cells.end() && it->first < hi) {
    i64 a = it->first, b = a + it->second.sz; if (b <= lo) { ++it; continue; }
    Cell c = it->second; it = ob.cells.erase(it);
    if (a >= lo && b <= hi) continue;
    if (c.v.k != VLin && c.v.k != VBits) unk("partial overwrite of a pointer cell");
    Bits bb = E.toBits(c.v); bb.resize(c.sz * 8, 0);
    if (a < lo) ob.cells[a] = {(unsigned)(lo - a), E.mkB(Bits(bb.begin(), bb.begin() + (lo - a) * 8)), c.src};
    if (b > hi) ob.cells[hi] = {(unsigned)(b - hi), E.mkB(Bits(bb.begin() + (hi - a) * 8, bb.end())), c.src};
    it = ob.cells.lower_bound(hi);
  }
}
void Engine::writeBits(State &s, int o, const Lin &off, const Bits &b, bool check) {
  unsigned bytes = b.size() / 8; if (check && !bounds(s, o, off, Lin(bytes), true, "write")) return;
  if (obj(s, o).words) {
    int E = obj(s, o).elem; for (auto &p : off.t) if (p.second % E) { floorDiv(s, off, E); unk("unaligned symbolic access"); }
    i64 fc = off.c >= 0 ? off.c / E : -((-off.c + E - 1) / E); int sub = off.c - fc * E; Lin idx = off; idx.c = fc; for (auto &p : idx.t) p.second /= E;
    int ne = (sub + bytes + E - 1) / E; std::vector<Bits> el;
    for (int i = 0; i < ne; i++) { bool whole = (i > 0 || sub == 0) && ((i + 1) * E <= (int)(sub + bytes)); el.push_back(whole ? Bits(E * 8) : getElem(s, o, idx + Lin(i))); }
    for (unsigned q = 0; q < b.size(); q++) { unsigned pos = sub * 8 + q; el[pos / (E * 8)][pos % (E * 8)] = b[q]; }
    // decide everything on a copy first, so that a fork re-executes the instruction from an unchanged state
    Obj tmp = obj(s, o); std::vector<LogW> lw;
    for (int i = 0; i < ne; i++) { TmplP t = elemT(el[i]); overlay(s, tmp, idx + Lin(i), idx + Lin(i + 1), t, curI); lw.push_back({o, idx + Lin(i), t, curI, false}); }
    s.objs[o] = std::make_shared<Obj>(std::move(tmp)); for (auto &l : lw) s.wlog.push_back(l);
    return;
  }
  if (!off.isConst()) unk("symbolic offset into a scalar object");
  Obj &ob = mut(s, o); carve(*this, ob, off.c, off.c + bytes); ob.cells[off.c] = {bytes, mkB(b), curI};
}
Val Engine::load(State &s, const Val &p, Type *ty) {
  if (p.k == VTop) unk("load through unknown pointer: " + p.why);
  if (p.k != VPtr) { if (p.k == VLin && p.l.isConst() && p.l.c == 0) { report(s, "oob-read", curI, "read through a null pointer"); s.stuck = true; return mkTop(64, "null load"); } unk("load through a non-pointer"); }
  unsigned bytes = DL.getTypeStoreSize(ty).getFixedValue(), w = width(ty);
  if (!w) {
    if (auto *st = dyn_cast<StructType>(ty)) { auto agg = std::make_shared<std::vector<Val>>(); auto *sl = DL.getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); i++) { Val q = p; q.l = q.l + Lin((i64)sl->getElementOffset(i)); agg->push_back(load(s, q, st->getElementType(i))); } Val r; r.k = VAgg; r.agg = agg; return r; }
    unk("load of aggregate");
  }
  if (p.obj && !obj(s, p.obj).words) {
    if (!bounds(s, p.obj, p.l, Lin(bytes), false, "read")) return ty->isPointerTy() ? mkTop(64, "out-of-bounds read") : mkB(undefBits(w, "out-of-bounds read"));
    if (!p.l.isConst()) unk("symbolic offset into a scalar object");
    auto &c = obj(s, p.obj).cells; auto it = c.find(p.l.c);
    if (it != c.end() && it->second.sz == bytes) {
      Val v = it->second.v;
      if (ty->isPointerTy()) { if (v.k == VLin && v.l.isConst() && v.l.c == 0) return mkP(0, Lin(0)); if (v.k == VPtr || v.k == VFn || v.k == VTop) return v; unk("pointer load of integer bits"); }
      if (v.k == VPtr || v.k == VTop || v.k == VFloat || v.k == VFn) return v;
      if (ty->isFloatingPointTy()) { unk("float load"); }
      if (v.w == w) return v; Bits b = toBits(v); b.resize(w, 0); return mkB(b);
    }
    if (ty->isPointerTy()) { bool any = false; for (auto &q : c) if (q.first < p.l.c + 8 && q.first + (i64)q.second.sz > p.l.c) any = true; if (!any) { if (obj(s, p.obj).name == "zeroinit") return mkP(0, Lin(0)); return mkTop(64, "uninitialised pointer"); } 
      Bits b = readBits(s, p.obj, p.l, 8, false); for (Node n : b) if (n) unk("pointer load of integer bits"); return mkP(0, Lin(0)); }
    if (auto *vt = dyn_cast<FixedVectorType>(ty)) { // element by element where an element is an affine quantity
      i64 es = bytes / vt->getNumElements(); bool aff = false; for (auto &q : c) if (q.first < p.l.c + bytes && q.first >= p.l.c && q.second.v.k == VLin && !q.second.v.l.isConst()) aff = true;
      if (aff) { std::vector<Val> e; for (unsigned i = 0; i < vt->getNumElements(); i++) { Val q = p; q.l = q.l + Lin(i * es); e.push_back(load(s, q, vt->getElementType())); } return mkLanes(e); } }
    Bits b = readBits(s, p.obj, p.l, bytes, false); for (auto &n : b) n = simp(s, n); b.resize(w); return mkB(b);
  }
  Bits b = readBits(s, p.obj, p.l, bytes); if (ty->isPointerTy()) { bool z = true; for (Node n : b) if (n) z = false; if (z) return mkP(0, Lin(0)); return mkTop(64, "pointer read from a word array"); }
  b.resize(w); return mkB(b);
}
void Engine::store(State &s, const Val &p, const Val &v, Type *ty) {
  if (p.k == VTop) unk("store through unknown pointer: " + p.why);
  if (p.k != VPtr) { if (p.k == VLin && p.l.isConst() && p.l.c == 0) { report(s, "oob-write", curI, "write through a null pointer"); s.stuck = true; return; } unk("store through a non-pointer"); }
  unsigned bytes = DL.getTypeStoreSize(ty).getFixedValue();
  if (v.k == VAgg && v.w && ty->isVectorTy()) {
    if (!p.obj || obj(s, p.obj).words) { writeBits(s, p.obj, p.l, toBits(v)); return; }
    Type *et = cast<FixedVectorType>(ty)->getElementType(); i64 es = DL.getTypeStoreSize(et).getFixedValue(); for (size_t i = 0; i < v.agg->size(); i++) { Val q = p; q.l = q.l + Lin((i64)i * es); store(s, q, (*v.agg)[i], et); } return; }
  if (v.k == VAgg) { auto *st = dyn_cast<StructType>(ty); if (!st) unk("store of array aggregate"); auto *sl = DL.getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); i++) { Val q = p; q.l = q.l + Lin((i64)sl->getElementOffset(i)); store(s, q, (*v.agg)[i], st->getElementType(i)); } return; }
  if (!p.obj || obj(s, p.obj).words) {
    if (v.k == VPtr && v.obj == 0 && v.l == Lin(0)) { writeBits(s, p.obj, p.l, Bits(64, 0)); return; }
    if (v.k == VPtr) unk("pointer stored into a word array");
    Bits b = toBits(v); b.resize(bytes * 8, 0); writeBits(s, p.obj, p.l, b); return; }
  if (!bounds(s, p.obj, p.l, Lin(bytes), true, "write")) return;
  if (!p.l.isConst()) unk("symbolic offset into a scalar object");
  Obj &ob = mut(s, p.obj); auto it = ob.cells.find(p.l.c);
  if (it == ob.cells.end() || it->second.sz != bytes) carve(*this, ob, p.l.c, p.l.c + bytes);
  ob.cells[p.l.c] = {bytes, v, curI};
}
void Engine::memCopy(State &s, const Val &d, const Val &src, const Val &n) {
  if (n.k != VLin) unk("memcpy of data-dependent size"); 
  if (n.l.isConst() && n.l.c == 0) return;
  if (d.k != VPtr || src.k != VPtr) unk("memcpy through unknown pointer");
  Lin len = n.l; 
  if (!len.isConst()) { if (!decideGE0(s, len)) { report(s, "oob-write", curI, "memory copy of negative size " + str(len)); s.stuck = true; return; } if (decideEQ0(s, len)) return; }
  bool okr = bounds(s, src.obj, src.l, len, false, "copy source"), okw = bounds(s, d.obj, d.l, len, true, "copy destination");
  if (!okw) { s.stuck = true; return; } 
  if (!okr) { if (!len.isConst() || len.c > 4096) { s.stuck = true; return; } writeBits(s, d.obj, d.l, undefBits(len.c * 8, "out-of-bounds read"), false); return; }
  const Obj &so = obj(s, src.obj), &dob = obj(s, d.obj);
  if (!so.words && !dob.words) {
    if (!len.isConst() || !src.l.isConst() || !d.l.isConst()) unk("symbolic copy of scalar object");
    std::vector<std::pair<i64, Cell>> mv; i64 a = src.l.c, b = a + len.c;
    for (auto &c : so.cells) { i64 x = c.first, y = x + c.second.sz; if (y <= a || x >= b) continue; if (x >= a && y <= b) mv.push_back(c); else { Bits bb = toBits(c.second.v); bb.resize(c.second.sz * 8, 0); i64 p = std::max(a, x), q = std::min(b, y); mv.push_back({p, {(unsigned)(q - p), mkB(Bits(bb.begin() + (p - x) * 8, bb.begin() + (q - x) * 8)), c.second.src}}); } }
    Obj &ob = mut(s, d.obj); carve(*this, ob, d.l.c, d.l.c + len.c); for (auto &c : mv) { c.second.src = curI; ob.cells[c.first - a + d.l.c] = c.second; }
    return;
  }
  if (len.isConst() && len.c <= 4096 && !(so.words && dob.words && so.elem == dob.elem && len.c > 64 * so.elem)) {
    Bits b = readBits(s, src.obj, src.l, len.c, false); writeBits(s, d.obj, d.l, b, false); return;
  }
  if (!so.words || !dob.words || so.elem != dob.elem) unk("symbolic copy between different object kinds");
  i64 E = so.elem; Lin ne = floorDiv(s, len, E), sl = floorDiv(s, src.l, E), dl = floorDiv(s, d.l, E);
  if (ne * E != len || sl * E != src.l || dl * E != d.l) unk("unaligned symbolic copy");
  std::vector<Seg> pcs = cutSegs(s, src.obj, sl, sl + ne); Obj tmp = obj(s, d.obj);
  for (auto &g : pcs) overlay(s, tmp, g.lo + (dl - sl), g.hi + (dl - sl), tmplShift(g.t, Lin::var(J) - (dl - sl)), curI);
  s.objs[d.obj] = std::make_shared<Obj>(std::move(tmp)); s.wlog.push_back({d.obj, dl, nullptr, curI, true});
}
void Engine::memFill(State &s, const Val &d, const Val &c, const Val &n) {
  if (n.k != VLin) unk("memset of data-dependent size"); if (n.l.isConst() && n.l.c == 0) return; if (d.k != VPtr) unk("memset through unknown pointer");
  Lin len = n.l; if (!len.isConst()) { if (!decideGE0(s, len)) { report(s, "oob-write", curI, "memory fill of negative size " + str(len)); s.stuck = true; return; } if (decideEQ0(s, len)) return; }
  if (!bounds(s, d.obj, d.l, len, true, "fill destination")) { s.stuck = true; return; }
  Bits cb = toBits(c); cb.resize(8); const Obj &ob = obj(s, d.obj);
  if (!ob.words || (len.isConst() && len.c <= 256)) { if (!len.isConst()) unk("symbolic fill of scalar object"); Bits b; for (i64 i = 0; i < len.c; i++) b.insert(b.end(), cb.begin(), cb.end()); writeBits(s, d.obj, d.l, b, false); return; }
  i64 E = ob.elem; Lin ne = floorDiv(s, len, E), dl = floorDiv(s, d.l, E); if (ne * E != len || dl * E != d.l) unk("unaligned symbolic fill");
  Bits b; for (i64 i = 0; i < E; i++) b.insert(b.end(), cb.begin(), cb.end());
  Obj tmp = ob; overlay(s, tmp, dl, dl + ne, elemT(b), curI); s.objs[d.obj] = std::make_shared<Obj>(std::move(tmp)); s.wlog.push_back({d.obj, dl, nullptr, curI, true});
}
bool Engine::nodeEq(State &s, Node a, Node b) {
  if (a == b) return true; a = simp(s, a); b = simp(s, b); if (a == b) return true;
  if (!s.resid.empty()) { Node c = B.Xor(a, b); for (Node q : s.resid) { c = B.And(c, q); if (!c) return true; } }
  return false;
}
// two origin atoms that differ only by undetermined word indices may denote the same bit: split on it
static void splitAliases(Engine &E, State &s, Node a, Node b) {
  std::vector<uint32_t> v, w; B.support(E.simp(s, a), v); B.support(E.simp(s, b), w); v.insert(v.end(), w.begin(), w.end());
  auto split = [&](uint32_t i, uint32_t j) { const VarDesc x = B.vars[i], y = B.vars[j]; if (i == j || x.kind != VD_ATOM || y.kind != VD_ATOM || x.region != y.region || x.bit != y.bit) return; Lin d = x.idx - y.idx; if (d.isConst() || d.coef(J)) return; if (E.decideEQ0(s, d)) { ForkEx f; f.lin = true; Alt q; q.eq.push_back(d); q.what = str(d) + "==0"; f.alts.push_back(q); throw f; } };
  for (size_t i = 0; i < v.size(); i++) for (size_t j = i + 1; j < v.size(); j++) split(v[i], v[j]);
  for (uint32_t i : v) for (auto &q : s.asg) split(i, q.first);
}
bool Engine::segsEqual(State &s, std::vector<Seg> a, std::vector<Seg> b, const Lin &lo, const Lin &hi, int bits, Mismatch *mm, const std::vector<char> *dc) {
  // both lists are ordered, contiguous and start at lo; pieces may be empty
  Lin p = lo; size_t i = 0, j = 0; int guard = 0;
  for (;;) {
    while (i < a.size() && proveGE0(s, p - a[i].hi)) i++; while (j < b.size() && proveGE0(s, p - b[j].hi)) j++;
    if (proveGE0(s, p - hi)) return true;
    if (i >= a.size() || j >= b.size()) { if (!decideGE0(s, hi - p - Lin(1))) return true; unk("segment lists do not cover the object"); }
    if (++guard > 400 + 4 * (int)(a.size() + b.size())) unk("segment comparison does not converge");
    Seg *x = &a[i], *y = &b[j]; Lin e, p0cut; bool cutNow = false;
    if (proveGE0(s, y->hi - x->hi)) e = x->hi; else if (proveGE0(s, x->hi - y->hi)) e = y->hi; else e = decideGE0(s, y->hi - x->hi) ? x->hi : y->hi;
    if (!proveGE0(s, hi - e) && !decideGE0(s, hi - e)) e = hi;
    auto cmpAt = [&](const Lin &at, bool rec) { Bits ta = tmplAt(x->t, at), tb = tmplAt(y->t, at); for (int q = 0; q < bits; q++) { if (tb[q] == ~0u || ta[q] == ~0u) continue; if (!nodeEq(s, ta[q], tb[q])) { if (rec) splitAliases(*this, s, ta[q], tb[q]); if (rec && mm) *mm = {at, at + Lin(1), q, simp(s, ta[q]), simp(s, tb[q]), x->src}; return false; } } return true; };
    Lin n = e - p;
    if (n.isConst() && n.c <= 160) { for (i64 q = 0; q < n.c; q++) if (!cmpAt(p + Lin(q), true)) return false; }
    else {
      auto whole = [&](const Lin &e) { size_t g0 = s.ge.size(); s.ge.push_back(Lin::var(J) - p); s.ge.push_back(e - Lin::var(J) - Lin(1)); bool ok; try { ok = cmpAt(Lin::var(J), false); } catch (...) { s.ge.resize(g0); throw; } s.ge.resize(g0); return ok; };
      if (!whole(e) && decideGE0(s, e - p - Lin(1))) {
        // the value facts may cover the range piecewise: cut it where the known facts change
        std::vector<Lin> cuts; auto cand = [&](const Lin &t) { if (std::find(cuts.begin(), cuts.end(), t) != cuts.end()) return; if (proveGE0(s, p - t) || proveGE0(s, t - e)) return; cuts.push_back(t); };
        std::set<std::pair<int, Lin>> offs; for (auto *tp : {&x->t, &y->t}) for (Node q : (*tp)->b) { if (q == ~0u) continue; std::vector<uint32_t> sv; B.support(q, sv); for (uint32_t v : sv) { const VarDesc &d = B.vars[v]; if (d.kind == VD_ATOM && d.idx.coef(J) == 1) offs.insert({d.region, d.idx - Lin::var(J)}); } }
        for (auto &of : offs) { for (auto &f : s.fs) if (f.region == of.first) { cand(f.lo - of.second); cand(f.hi - of.second); } for (auto &q : s.asg) { const VarDesc &d = B.vars[q.first]; if (d.kind == VD_ATOM && d.region == of.first) { cand(d.idx - of.second); cand(d.idx - of.second + Lin(1)); } } }
        bool cut = false; Lin best; 
        for (auto &t : cuts) { if (!decideGE0(s, t - p - Lin(1)) || !decideGE0(s, e - t - Lin(1))) continue; if (!cut || decideGE0(s, best - t - Lin(1))) best = t; cut = true; }
        if (cut) { p0cut = best; cutNow = true; }
        else {
          if (!cmpAt(p, true) || !cmpAt(e - Lin(1), true)) return false;
          if (decideGE0(s, e - p - Lin(3))) { if (!cmpAt(p + Lin(1), true)) return false; unk("segment templates differ only at an unidentified index"); }
        }
      }
    }
    if (cutNow) { // first the part before the cut, alone
      Lin m = p0cut - p; bool fine; if (m.isConst() && m.c <= 160) { fine = true; for (i64 q = 0; fine && q < m.c; q++) fine = cmpAt(p + Lin(q), true); if (!fine) return false; }
      else { size_t g0 = s.ge.size(); s.ge.push_back(Lin::var(J) - p); s.ge.push_back(p0cut - Lin::var(J) - Lin(1)); try { fine = cmpAt(Lin::var(J), false); } catch (...) { s.ge.resize(g0); throw; } s.ge.resize(g0);
        if (!fine) { if (!cmpAt(p, true) || !cmpAt(p0cut - Lin(1), true)) return false; unk("segment templates differ only at an unidentified index"); } }
      p = p0cut; continue;
    }
    p = e; if (x->hi == e) i++; if (y->hi == e) j++;
  }
}
// ---------------------------------------------------------------- reporting
std::string Engine::demangle(const std::string &s) { std::string d = llvm::demangle(s); size_t p; while ((p = d.find("std::__cxx11::")) != std::string::npos) d.replace(p, 14, "std::"); return d; }
static const DILocation *repoLoc(const Instruction *I) { return I ? I->getDebugLoc().get() : nullptr; }
std::string Engine::loc(const Instruction *I) {
  const DILocation *d = repoLoc(I); if (!d) return I ? "?" : "(not written)";
  std::string f = d->getFilename().str(); if (f.empty() || f[0] != '/') f = d->getDirectory().str() + "/" + f;
  return f + ":" + std::to_string(d->getLine());
}
std::string Engine::funcName(const Instruction *I) { return I ? demangle(I->getFunction()->getName().str()) : ""; }
void Engine::probe(const State &s) {
  std::map<int, i64> model; if (!C || !C->symbolic || probes.size() >= 8 || !satisfiable(s, &model)) return;
  std::map<std::string, i64> inst; for (auto &up : C->params) { Lin e = s.norm(Lin::var(up.second)); i64 v = e.c; for (auto &t : e.t) { auto q = model.find(t.first); v += t.second * (q == model.end() ? 0 : q->second); } inst[up.first] = v; }
  probes.insert(inst);
}
void Engine::report(State &s, const std::string &kind, const Instruction *at, const std::string &what, bool needExact) {
  std::string key = kind + "|" + loc(at) + "|" + (at ? std::to_string((uintptr_t)at) : "");
  if (s.reported.count(key)) return; s.reported.insert(key);
  if (kind.compare(0, 5, "value") && kind != "frame" && kind != "return" && kind != "state") oblige(kind, false);
  if (s.inexact) { unknownWhy.insert("suppressed on an over-approximated path: " + kind); return; }
  std::map<int, i64> model; 
  if (reportDirect) { if (fmInfeasible(s.ge, nullptr)) { oblige(kind, true); return; } } else if (!satisfiable(s, &model)) { unknownWhy.insert("no concrete instance found for a candidate " + kind + " at " + loc(at) + ": " + what); cs.unknown++; return; }
  // any value fact of the path that involves uninitialised data is still a fact of a feasible path
  std::string m; for (auto &p : model) m += (m.empty() ? "" : ",") + gLV[p.first].name + "=" + std::to_string(p.second);
  std::string stack; for (int i = (int)s.st.size() - 1; i >= 0; i--) { const Frame &f = *s.st[i]; const Instruction *ci = i == (int)s.st.size() - 1 ? curI : s.st[i + 1]->call; stack += (stack.empty() ? "" : " <- ") + demangle(f.fi->f->getName().str()).substr(0, 160) + " (" + (ci ? loc(ci) : "?") + ")"; }
  std::string path; for (auto &ps : s.path.tail(24)) path += (path.empty() ? "" : " ; ") + ps.what + " @" + loc(ps.at);
  // attribute to the nearest frame inside the analysed library
  std::string where = loc(at); 
  if (where.find("/bitlib/") == std::string::npos) for (int i = (int)s.st.size() - 1; i > 0; i--) { std::string w = loc(s.st[i]->call); if (w.find("/bitlib/") != std::string::npos) { where = w + " (via " + loc(at) + ")"; break; } }
  std::map<std::string, i64> inst; if (C) for (auto &up : C->params) { Lin e = s.norm(Lin::var(up.second)); i64 v = e.c; for (auto &t : e.t) { auto q = model.find(t.first); v += t.second * (q == model.end() ? 0 : q->second); } inst[up.first] = v; }
  Finding f; f.inst = inst; f.kind = kind; f.where = where; f.func = funcName(at); f.what = what + (m.empty() ? "" : " [instance " + m + "]"); f.path = (stack.empty() ? "" : "stack: " + stack + " ; ") + "path: " + path;
  std::string fk = kind + "|" + where; if (C && (C->symbolic || C->confirm) && !reportDirect) { for (auto &p : inst) fk += "|" + std::to_string(p.second); if (candKeys.size() < 12 && candKeys.insert(fk).second) candidates.push_back(f); return; }
  hitLast = true; if (findKeys.insert(fk).second) findings.push_back(f);
}
