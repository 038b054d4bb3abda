// Abstract domains of the BitLib analyser.
//  - Lin : affine expressions over unbounded non-negative integer parameters
//  - Bdd : canonical boolean functions over "origin atoms" (bit b of word i of
//          region R as it was when the analysed function was entered)
// Nothing here executes the analysed program.
#pragma once
#include <cstdint>
#include <cstring>
#include <string>
#include <vector>
#include <map>
#include <unordered_map>
#include <memory>
#include <algorithm>
#include <functional>
#include <stdexcept>
#include <cassert>

typedef uint32_t Node;
typedef int64_t i64;

struct Unknown { std::string why; };          // analysis cannot decide this path

// ---------------------------------------------------------------- Lin
struct Lin {
  i64 c = 0;
  std::vector<std::pair<int, i64>> t;         // sorted by var id, coef != 0
  Lin() {}
  Lin(i64 k) : c(k) {}
  bool isConst() const { return t.empty(); }
  bool operator==(const Lin &o) const { return c == o.c && t == o.t; }
  bool operator!=(const Lin &o) const { return !(*this == o); }
  bool operator<(const Lin &o) const { return c != o.c ? c < o.c : t < o.t; }
  static Lin var(int v, i64 k = 1) { Lin l; l.t.push_back({v, k}); return l; }
  i64 coef(int v) const { for (auto &p : t) if (p.first == v) return p.second; return 0; }
};
Lin operator+(const Lin &a, const Lin &b);
Lin operator-(const Lin &a, const Lin &b);
Lin operator*(const Lin &a, i64 k);
Lin substVar(const Lin &e, int v, const Lin &by);
enum LVKind { LV_PARAM, LV_BIT, LV_SUM };
struct LVar { LVKind kind; std::string name; Node node = 0; bool bound = false; };
extern std::vector<LVar> gLV;                 // LVar 0 is the bound template index J
const int J = 0;
int newParam(const std::string &name);
int bitVar(Node n);                            // 0/1 valued variable for a BDD node
std::string str(const Lin &);

// ---------------------------------------------------------------- BDD
enum VDKind { VD_ATOM, VD_FUN, VD_UNDEF };
struct VarDesc {
  VDKind kind; int region = 0; Lin idx; int bit = 0;       // VD_ATOM
  int fn = 0; std::vector<Node> args;                      // VD_FUN (uninterpreted bitwise op)
  std::string note;                                        // VD_UNDEF
};
struct Bdd {
  struct N { uint32_t var; Node lo, hi; };
  std::vector<N> n;
  std::vector<Node> uniq;                                  // open addressing
  std::vector<VarDesc> vars;
  struct CE { Node f, g, h, r; };
  std::vector<CE> cache;
  std::map<std::pair<std::pair<int, int>, Lin>, uint32_t> atomIdx;
  std::map<std::pair<int, std::vector<Node>>, uint32_t> funIdx;
  void reset();
  Node mk(uint32_t v, Node lo, Node hi);
  Node ite(Node f, Node g, Node h);
  Node Not(Node a) { return ite(a, 0, 1); }
  Node And(Node a, Node b) { if (a == 0 || b == 0) return 0; if (a == 1) return b; if (b == 1) return a; return ite(a, b, 0); }
  Node Or(Node a, Node b) { if (a == 1 || b == 1) return 1; if (a == 0) return b; if (b == 0) return a; return ite(a, 1, b); }
  Node Xor(Node a, Node b) { if (a == 0) return b; if (b == 0) return a; if (a == b) return 0; return ite(a, Not(b), b); }
  Node Xnor(Node a, Node b) { return Not(Xor(a, b)); }
  Node atom(int region, const Lin &idx, int bit);
  Node fun(int fn, std::vector<Node> args);
  Node undef(const std::string &note);
  void support(Node f, std::vector<uint32_t> &out) const;  // sorted unique
  Node rename(Node f, const std::function<Node(uint32_t)> &m, std::unordered_map<Node, Node> &memo);
  bool isLit(Node f, uint32_t &v, bool &pos) const;
  void growUniq();
};
extern Bdd B;
std::string strNode(Node f, int depth = 4);
