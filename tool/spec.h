// Specifications (postconditions) of the analysed entry points.
#pragma once
#include "engine.h"
#include <random>
struct Opts { std::string suite, tier = "quick", cfg = "scalar", only; int W = 0, vec = 128; uint64_t seed = 1; int jobs = 8; long cap = 0; double deadline = 1e9; };
// A case together with the bounded partitions that replace it when the loop
// summarisation does not converge (changed code only).
struct CaseSet { Case main; std::function<std::vector<Case>()> fallback; bool prio = false; int heavy = 1; };
typedef std::vector<CaseSet> Suite;
void buildAlgo(Suite &out, const Opts &o);
void buildPrim(Suite &out, const Opts &o);
void buildPopcnt(Suite &out, const Opts &o);
bool linIsZero(Engine &E, State &s, const Lin &d);
void buildVec(Suite &out, const Opts &o);
// ---- helpers shared by the specifications
struct Pos { Lin w; int b; };                          // bit position: word index and bit number
Pos norm(Pos p, int W);
Pos operator+(Pos p, i64 bits);
std::string str(const Pos &p);
TmplP mkT(Bits b, bool hasJ);
// bits of region r seen through a displacement: element J bit b is bit (J*W+b+d) of r
Bits shifted(int region, int W, Lin dw, i64 db);
Bits mirrored(int region, int W, Lin sw, i64 sb);       // bit (sw*W+sb) - (J*W+b)
// expected contents: `in` on the bit range [lo,hi), the original elsewhere
std::vector<Seg> expectRange(Engine &E, State &s, int obj, Pos lo, Pos hi, const Bits &in, bool inHasJ, std::vector<Seg> base = {});
std::vector<Seg> original(Engine &E, State &s, int obj);
struct RangeSpec { Pos lo, hi; };
bool checkObj(Engine &E, State &s, int obj, std::vector<Seg> want, const RangeSpec *dst, const std::string &what);
