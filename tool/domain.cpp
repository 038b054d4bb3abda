#include "domain.h"
std::vector<LVar> gLV;
static std::map<Node, int> gBitVar;
Bdd B;

Lin operator+(const Lin &a, const Lin &b) {
  Lin r; r.c = a.c + b.c;
  if (a.t.empty()) { r.t = b.t; return r; }
  if (b.t.empty()) { r.t = a.t; return r; }
  size_t i = 0, j = 0;
  while (i < a.t.size() || j < b.t.size()) {
    if (j == b.t.size() || (i < a.t.size() && a.t[i].first < b.t[j].first)) r.t.push_back(a.t[i++]);
    else if (i == a.t.size() || b.t[j].first < a.t[i].first) r.t.push_back(b.t[j++]);
    else { i64 k = a.t[i].second + b.t[j].second; if (k) r.t.push_back({a.t[i].first, k}); i++; j++; }
  }
  return r;
}
Lin operator*(const Lin &a, i64 k) {
  Lin r; if (!k) return r;
  r.c = (i64)((uint64_t)a.c * (uint64_t)k);
  for (auto &p : a.t) r.t.push_back({p.first, p.second * k});
  return r;
}
Lin operator-(const Lin &a, const Lin &b) { return a + b * -1; }
Lin substVar(const Lin &e, int v, const Lin &by) {
  i64 k = e.coef(v); if (!k) return e;
  Lin r = e; for (size_t i = 0; i < r.t.size(); i++) if (r.t[i].first == v) { r.t.erase(r.t.begin() + i); break; }
  return r + by * k;
}
int newParam(const std::string &name) {
  LVar v; v.kind = LV_PARAM; v.name = name; gLV.push_back(v); return gLV.size() - 1;
}
int bitVar(Node n) {
  auto it = gBitVar.find(n); if (it != gBitVar.end()) return it->second;
  LVar v; v.kind = LV_BIT; v.node = n; v.name = "b" + std::to_string(n); gLV.push_back(v);
  return gBitVar[n] = gLV.size() - 1;
}
std::string str(const Lin &e) {
  std::string s; for (auto &p : e.t) {
    if (!s.empty() && p.second >= 0) s += "+";
    if (p.second == -1) s += "-"; else if (p.second != 1) s += std::to_string(p.second) + "*";
    s += gLV[p.first].kind == LV_BIT ? "[" + strNode(gLV[p.first].node) + "]" : gLV[p.first].name;
  }
  if (e.c || s.empty()) { if (!s.empty() && e.c >= 0) s += "+"; s += std::to_string(e.c); }
  return s;
}
void Bdd::reset() {
  n.clear(); vars.clear(); atomIdx.clear(); funIdx.clear();
  n.push_back({~0u, 0, 0}); n.push_back({~0u, 1, 1});
  if (uniq.size() > (1u << 16) || uniq.empty()) uniq.assign(1 << 14, 0); else std::fill(uniq.begin(), uniq.end(), 0);
  cache.assign(1 << 14, CE{0, 0, 0, ~0u});
  gBitVar.clear(); gLV.clear();
  LVar j; j.kind = LV_PARAM; j.name = "J"; j.bound = true; gLV.push_back(j);
}
static inline uint32_t h3(uint32_t a, uint32_t b, uint32_t c) {
  uint64_t h = a * 0x9E3779B97F4A7C15ull + b * 0xC2B2AE3D27D4EB4Full + c * 0x165667B19E3779F9ull; h ^= h >> 29; return (uint32_t)(h * 0xBF58476D1CE4E5B9ull >> 32);
}
void Bdd::growUniq() {
  std::vector<Node> u(uniq.size() * 2, 0);
  for (Node i = 2; i < n.size(); i++) { uint32_t h = h3(n[i].var, n[i].lo, n[i].hi) & (u.size() - 1); while (u[h]) h = (h + 1) & (u.size() - 1); u[h] = i; }
  uniq.swap(u);
  if (cache.size() < (1u << 20) && uniq.size() > cache.size()) cache.assign(uniq.size(), CE{0, 0, 0, ~0u});
}
Node Bdd::mk(uint32_t v, Node lo, Node hi) {
  if (lo == hi) return lo;
  uint32_t h = h3(v, lo, hi) & (uniq.size() - 1);
  while (uniq[h]) { const N &x = n[uniq[h]]; if (x.var == v && x.lo == lo && x.hi == hi) return uniq[h]; h = (h + 1) & (uniq.size() - 1); }
  if (n.size() > 3000000) throw Unknown{"bdd size limit"};
  n.push_back({v, lo, hi}); uniq[h] = n.size() - 1; Node r = n.size() - 1;
  if (n.size() * 2 > uniq.size()) growUniq();
  return r;
}
Node Bdd::ite(Node f, Node g, Node h) {
  if (f == 1) return g; if (f == 0) return h; if (g == h) return g; if (g == 1 && h == 0) return f;
  uint32_t k = h3(f, g, h) & (cache.size() - 1);
  { CE &e = cache[k]; if (e.r != ~0u && e.f == f && e.g == g && e.h == h) return e.r; }
  uint32_t v = n[f].var; if (g > 1) v = std::min(v, n[g].var); if (h > 1) v = std::min(v, n[h].var);
  auto lo = [&](Node x) { return x > 1 && n[x].var == v ? n[x].lo : x; };
  auto hi = [&](Node x) { return x > 1 && n[x].var == v ? n[x].hi : x; };
  Node fl = lo(f), gl = lo(g), hl = lo(h), fh = hi(f), gh = hi(g), hh = hi(h);
  Node l = ite(fl, gl, hl), r = ite(fh, gh, hh);
  Node res = mk(v, l, r);
  k = h3(f, g, h) & (cache.size() - 1); cache[k] = CE{f, g, h, res};
  return res;
}
Node Bdd::atom(int region, const Lin &idx, int bit) {
  auto key = std::make_pair(std::make_pair(region, bit), idx);
  auto it = atomIdx.find(key);
  if (it == atomIdx.end()) {
    VarDesc d; d.kind = VD_ATOM; d.region = region; d.idx = idx; d.bit = bit; vars.push_back(d);
    it = atomIdx.insert({key, (uint32_t)vars.size() - 1}).first;
  }
  return mk(it->second, 0, 1);
}
Node Bdd::fun(int fn, std::vector<Node> args) {
  auto key = std::make_pair(fn, args);
  auto it = funIdx.find(key);
  if (it == funIdx.end()) {
    VarDesc d; d.kind = VD_FUN; d.fn = fn; d.args = args; vars.push_back(d);
    it = funIdx.insert({key, (uint32_t)vars.size() - 1}).first;
  }
  return mk(it->second, 0, 1);
}
Node Bdd::undef(const std::string &note) {
  VarDesc d; d.kind = VD_UNDEF; d.note = note; vars.push_back(d); return mk(vars.size() - 1, 0, 1);
}
void Bdd::support(Node f, std::vector<uint32_t> &out) const {
  std::vector<Node> st{f}; std::vector<Node> seen;
  std::unordered_map<Node, char> vis;
  while (!st.empty()) {
    Node x = st.back(); st.pop_back(); if (x < 2 || vis.count(x)) continue; vis[x] = 1;
    out.push_back(n[x].var); st.push_back(n[x].lo); st.push_back(n[x].hi);
  }
  std::sort(out.begin(), out.end()); out.erase(std::unique(out.begin(), out.end()), out.end());
}
Node Bdd::rename(Node f, const std::function<Node(uint32_t)> &m, std::unordered_map<Node, Node> &memo) {
  if (f < 2) return f;
  auto it = memo.find(f); if (it != memo.end()) return it->second;
  uint32_t v = n[f].var; Node l = n[f].lo, h = n[f].hi;
  Node rl = rename(l, m, memo), rh = rename(h, m, memo);
  Node mv = m(v);
  Node r = ite(mv, rh, rl);
  memo[f] = r; return r;
}
bool Bdd::isLit(Node f, uint32_t &v, bool &pos) const {
  if (f < 2) return false; const N &x = n[f];
  if (x.lo == 0 && x.hi == 1) { v = x.var; pos = true; return true; }
  if (x.lo == 1 && x.hi == 0) { v = x.var; pos = false; return true; }
  return false;
}
extern std::function<std::string(int)> gRegionName;
std::function<std::string(int)> gRegionName = [](int r) { return "R" + std::to_string(r); };
std::string strNode(Node f, int depth) {
  if (f == 0) return "0"; if (f == 1) return "1";
  const Bdd::N x = B.n[f]; const VarDesc &d = B.vars[x.var];
  std::string v;
  if (d.kind == VD_ATOM) v = gRegionName(d.region) + "[" + str(d.idx) + "]." + std::to_string(d.bit);
  else if (d.kind == VD_UNDEF) v = "undef(" + d.note + ")";
  else { v = "op" + std::to_string(d.fn) + "("; for (size_t i = 0; i < d.args.size(); i++) v += (i ? "," : "") + (depth ? strNode(d.args[i], depth - 1) : "..."); v += ")"; }
  if (x.lo == 0 && x.hi == 1) return v;
  if (x.lo == 1 && x.hi == 0) return "~" + v;
  if (!depth) return "f(" + v + ",..)";
  return "(" + v + "?" + strNode(x.hi, depth - 1) + ":" + strNode(x.lo, depth - 1) + ")";
}
