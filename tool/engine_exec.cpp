#include "engine.h"
#include <cmath>
#include <llvm/IR/Constants.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/IntrinsicsX86.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/Operator.h>
#include <llvm/Support/raw_ostream.h>
using namespace llvm;

FnInfo *Engine::info(const Function *f) {
  auto &p = fns[f]; if (p) return p.get();
  p = std::make_unique<FnInfo>(); p->f = f; int k = 0;
  for (auto &a : f->args()) p->num[&a] = k++;
  for (auto &bb : *f) for (auto &i : bb) if (!i.getType()->isVoidTy()) p->num[&i] = k++;
  p->nregs = k; p->dt = std::make_unique<DominatorTree>(*const_cast<Function *>(f)); p->li = std::make_unique<LoopInfo>(*p->dt);
  return p.get();
}
void Engine::set(State &s, const Value *v, Val x) { Frame &f = top(s); f.r[f.fi->num.at(v)] = std::move(x); }
static void flattenInit(Engine &E, State &s, const Constant *c, Obj &o, i64 off) {
  Type *t = c->getType();
  if (isa<UndefValue>(c)) return;
  if (auto *st = dyn_cast<StructType>(t)) { auto *sl = E.DL.getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); i++) flattenInit(E, s, c->getAggregateElement(i), o, off + sl->getElementOffset(i)); return; }
  if (auto *at = dyn_cast<ArrayType>(t)) { if (at->getNumElements() > 4096) return; i64 es = E.DL.getTypeAllocSize(at->getElementType()).getFixedValue(); for (unsigned i = 0; i < at->getNumElements(); i++) flattenInit(E, s, c->getAggregateElement(i), o, off + i * es); return; }
  unsigned sz = E.DL.getTypeStoreSize(t).getFixedValue(); o.cells[off] = {sz, E.evalConst(s, c), nullptr};
}
Val Engine::evalConst(State &s, const Constant *c) {
  Type *t = c->getType();
  if (auto *ci = dyn_cast<ConstantInt>(c)) { if (ci->getBitWidth() <= 64) return mkC((i64)ci->getZExtValue(), ci->getBitWidth()); Bits b; for (unsigned i = 0; i < ci->getBitWidth(); i++) b.push_back(ci->getValue()[i]); return mkB(b); }
  if (isa<ConstantPointerNull>(c)) return mkP(0, Lin(0));
  if (auto *fp = dyn_cast<ConstantFP>(c)) { Val v; v.k = VFloat; v.w = width(t); v.f = t->isFloatTy() ? fp->getValueAPF().convertToFloat() : t->isDoubleTy() ? fp->getValueAPF().convertToDouble() : 0; return v; }
  if (isa<UndefValue>(c)) { // includes poison
    if (auto *st = dyn_cast<StructType>(t)) { auto a = std::make_shared<std::vector<Val>>(); for (unsigned i = 0; i < st->getNumElements(); i++) a->push_back(evalConst(s, UndefValue::get(st->getElementType(i)))); Val r; r.k = VAgg; r.agg = a; return r; }
    if (t->isPointerTy()) return mkTop(64, "undefined pointer"); unsigned w = width(t); if (!w) return mkTop(0, "undef"); return mkB(undefBits(w, "undefined value"));
  }
  if (auto *f = dyn_cast<Function>(c)) { Val v; v.k = VFn; v.w = 64; v.fn = f; return v; }
  if (auto *gv = dyn_cast<GlobalVariable>(c)) {
    auto it = s.globals.find(gv); if (it != s.globals.end()) return mkP(it->second, Lin(0));
    i64 sz = gv->getValueType()->isSized() ? DL.getTypeAllocSize(gv->getValueType()).getFixedValue() : 0;
    int id = newObj(s, ("global " + demangle(gv->getName().str())), false, 1, Lin(sz)); s.globals[gv] = id; Obj &o = mut(s, id); o.global = true; o.ro = gv->isConstant();
    if (gv->hasInitializer()) flattenInit(*this, s, gv->getInitializer(), o, 0);
    return mkP(id, Lin(0));
  }
  if (auto *ga = dyn_cast<GlobalAlias>(c)) return evalConst(s, ga->getAliasee());
  if (isa<ConstantAggregateZero>(c) || isa<ConstantVector>(c) || isa<ConstantDataVector>(c) || isa<ConstantStruct>(c) || isa<ConstantArray>(c) || isa<ConstantDataArray>(c)) {
    if (auto *vt = dyn_cast<FixedVectorType>(t)) { Bits b; for (unsigned i = 0; i < vt->getNumElements(); i++) { Bits e = toBits(evalConst(s, c->getAggregateElement(i))); b.insert(b.end(), e.begin(), e.end()); } return mkB(b); }
    auto a = std::make_shared<std::vector<Val>>(); unsigned n = t->isStructTy() ? t->getStructNumElements() : t->getArrayNumElements(); if (n > 4096) unk("large constant"); for (unsigned i = 0; i < n; i++) a->push_back(evalConst(s, c->getAggregateElement(i))); Val r; r.k = VAgg; r.agg = a; return r;
  }
  if (auto *ce = dyn_cast<ConstantExpr>(c)) {
    if (ce->getOpcode() == Instruction::GetElementPtr) return gep(s, ce);
    if (ce->isCast()) return castOp(s, ce->getOpcode(), evalConst(s, ce->getOperand(0)), ce->getOperand(0)->getType(), t, curI);
    if (ce->getNumOperands() == 2 && Instruction::isBinaryOp(ce->getOpcode())) return binop(s, ce->getOpcode(), evalConst(s, ce->getOperand(0)), evalConst(s, ce->getOperand(1)), t, curI);
  }
  unk("unsupported constant");
}
Val Engine::eval(State &s, const Value *v) {
  if (auto *c = dyn_cast<Constant>(v)) return evalConst(s, c);
  const Frame &f = *s.st.back(); auto it = f.fi->num.find(v); if (it == f.fi->num.end()) unk("unsupported operand");
  return f.r[it->second];
}
static bool paramLin(const Val &v) { if (v.k != VLin) return false; for (auto &p : v.l.t) if (gLV[p.first].kind != LV_BIT) return true; return false; }
Val Engine::binopS(State &s, unsigned op, const Val &a, const Val &b, unsigned w, const Instruction *I) {
  if (a.k == VTop) return a; if (b.k == VTop) return b;
  if (a.k == VPtr || b.k == VPtr) {
    if (op == Instruction::Sub && a.k == VPtr && b.k == VPtr) { if (a.obj == b.obj) return mkL(a.l - b.l, 64);
      if (a.obj == 0 || b.obj == 0) return mkTop(64, "difference with a null pointer"); return mkTop(64, "difference of unrelated pointers"); }
    if (op == Instruction::Add && a.k == VPtr && b.k == VLin) return mkP(a.obj, a.l + b.l);
    if (op == Instruction::Add && b.k == VPtr && a.k == VLin) return mkP(b.obj, a.l + b.l);
    if (op == Instruction::Sub && a.k == VPtr && b.k == VLin) return mkP(a.obj, a.l - b.l);
    if (a.k == VPtr && isConst(b) && (op == Instruction::URem || op == Instruction::And)) {
      i64 m = op == Instruction::URem ? b.l.c : b.l.c + 1; if (m > 0 && m <= 64 && (m & (m - 1)) == 0) { Lin e = a.l + Lin(obj(s, a.obj).align); return mkL(e - floorDiv(s, e, m) * m, 64); }
    }
    if (a.k == VPtr && a.obj == 0 && a.l.isConst()) return binopS(s, op, mkC(a.l.c, 64), b, w, I);
    if (b.k == VPtr && b.obj == 0 && b.l.isConst()) return binopS(s, op, a, mkC(b.l.c, 64), w, I);
    unk("arithmetic on a pointer");
  }
  if (a.k == VFloat || b.k == VFloat) unk("bit arithmetic on a float");
  bool ca = isConst(a), cb = isConst(b); unsigned sh = 0;
  auto shiftOk = [&]() { if (!cb) return true; uint64_t k = uval(b); if (k >= w) { report(s, "ub-shift", I, "shift of a " + std::to_string(w) + "-bit value by " + std::to_string(k)); return false; } sh = k; return true; };
  if (op == Instruction::Shl || op == Instruction::LShr || op == Instruction::AShr) {
    if (!cb) {
      if (b.k == VLin) { for (auto &p : b.l.t) if (gLV[p.first].kind != LV_BIT) { if (!decideGE0(s, Lin((i64)w - 1) - b.l)) { report(s, "ub-shift", I, "shift of a " + std::to_string(w) + "-bit value by " + str(b.l)); return mkB(undefBits(w, "shift by >= width")); } ForkEx fk; fk.lin = true; for (i64 v = 0; v < (i64)w; v++) { Alt q; q.eq.push_back(b.l - Lin(v)); q.what = "shift amount " + std::to_string(v); i64 gg = 0; for (auto &t : b.l.t) gg = std::__gcd(gg, t.second < 0 ? -t.second : t.second); if (gg > 1 && (b.l.c - v) % gg) continue; fk.alts.push_back(q); } if (fk.alts.size() > 8) unk("shift by a symbolic amount"); throw fk; } }
      // data-dependent shift amount: barrel
      Bits v = toBits(a), k = toBits(b); Node over = 0; unsigned lg = 0; while ((1u << lg) < w) lg++;
      for (unsigned i = lg; i < k.size(); i++) over = B.Or(over, k[i]); if (over != 0 && decideNode(s, over)) { report(s, "ub-shift", I, "shift by a value that can reach the operand width"); return mkB(undefBits(w, "shift by >= width")); }
      for (unsigned st = 0; st < lg; st++) { unsigned d = 1u << st; Bits nv(w); for (unsigned i = 0; i < w; i++) { Node x = op == Instruction::Shl ? (i >= d ? v[i - d] : 0) : (i + d < w ? v[i + d] : (op == Instruction::AShr ? v[w - 1] : 0)); nv[i] = B.ite(k[st], x, v[i]); } v = nv; }
      return mkB(v);
    }
    if (!shiftOk()) return mkB(undefBits(w, "shift by >= width"));
  }
  if (ca && cb && w <= 64) {
    uint64_t x = uval(a), y = uval(b); i64 sx = a.l.c, sy = b.l.c;
    switch (op) {
    case Instruction::Add: return mkC(x + y, w); case Instruction::Sub: return mkC(x - y, w); case Instruction::Mul: return mkC(x * y, w);
    case Instruction::And: return mkC(x & y, w); case Instruction::Or: return mkC(x | y, w); case Instruction::Xor: return mkC(x ^ y, w);
    case Instruction::Shl: return mkC(x << sh, w); case Instruction::LShr: return mkC(x >> sh, w); case Instruction::AShr: return mkC(sx >> sh, w);
    case Instruction::UDiv: case Instruction::URem: if (!y) { report(s, "ub-div", I, "division by zero"); return mkB(undefBits(w, "division by zero")); } return mkC(op == Instruction::UDiv ? x / y : x % y, w);
    case Instruction::SDiv: case Instruction::SRem: if (!y) { report(s, "ub-div", I, "division by zero"); return mkB(undefBits(w, "division by zero")); } if (sy == -1) return mkC(op == Instruction::SDiv ? -(uint64_t)sx : 0, w); return mkC(op == Instruction::SDiv ? sx / sy : sx % sy, w);
    }
    unk("binary op");
  }
  bool sa = a.k == VLin && !ca, sb = b.k == VLin && !cb; // symbolic affine
  if (sa || sb) {
    bool par = paramLin(a) || paramLin(b);
    auto nonneg = [&](const Val &v) { return decideGE0(s, v.l); };
    if (a.k == VLin && b.k == VLin) switch (op) {
      case Instruction::Add: return mkL(a.l + b.l, w);
      case Instruction::Sub: return mkL(a.l - b.l, w);
      case Instruction::Mul: if (cb) return mkL(a.l * b.l.c, w); if (ca) return mkL(b.l * a.l.c, w); unk("product of two unbounded quantities");
      case Instruction::Shl: if (sh < 62) return mkL(a.l * ((i64)1 << sh), w); break;
      case Instruction::LShr: if (!par) break; if (!nonneg(a)) unk("logical shift of a negative quantity"); return mkL(floorDiv(s, a.l, (i64)1 << sh), w);
      case Instruction::AShr: if (!par) break; return mkL(floorDiv(s, a.l, (i64)1 << sh), w);
      case Instruction::UDiv: case Instruction::URem: if (!par) break; if (!cb || b.l.c <= 0) { if (proveGE0(s, b.l - a.l - Lin(1)) && proveGE0(s, a.l)) return op == Instruction::UDiv ? mkC(0, w) : a; unk("division by an unbounded quantity"); } if (!nonneg(a)) unk("unsigned division of a negative quantity"); { Lin q = floorDiv(s, a.l, b.l.c); return mkL(op == Instruction::UDiv ? q : a.l - q * b.l.c, w); }
      case Instruction::SDiv: case Instruction::SRem: if (!par) break; if (!cb || b.l.c <= 0) unk("division by an unbounded quantity"); { Lin q = decideGE0(s, a.l) ? floorDiv(s, a.l, b.l.c) : floorDiv(s, a.l * -1, b.l.c) * -1; return mkL(op == Instruction::SDiv ? q : a.l - q * b.l.c, w); }
      case Instruction::And: if (!par) break; { const Val &v = ca ? b : a; const Val &m = ca ? a : b; if (!isConst(m)) unk("bitwise and of unbounded quantities"); i64 k = m.l.c; if (k == 0) return mkC(0, w); if (k > 0 && (k & (k + 1)) == 0) return mkL(v.l - floorDiv(s, v.l, k + 1) * (k + 1), w); if (k < 0 && ((-k) & (-k - 1)) == 0) return mkL(floorDiv(s, v.l, -k) * -k, w); unk("bitwise and of an unbounded quantity"); }
      case Instruction::Xor: if (!par) break; { const Val &v = ca ? b : a; const Val &m = ca ? a : b; if (isConst(m) && m.l.c == -1) return mkL(v.l * -1 - Lin(1), w); if (isConst(m) && m.l.c == 0) return v; unk("bitwise xor of an unbounded quantity"); }
      case Instruction::Or: if (!par) break; { const Val &v = ca ? b : a; const Val &m = ca ? a : b; if (isConst(m) && m.l.c == 0) return v; unk("bitwise or of an unbounded quantity"); }
      }
    if (par) unk("mixed arithmetic on an unbounded quantity");
    // a bit-sum combined with plain bits: keep additions affine when the bits are few
    if ((op == Instruction::Add || op == Instruction::Sub) && (a.k == VBits || b.k == VBits)) {
      auto asLin = [&](const Val &v, Lin &out) { if (v.k == VLin) { out = v.l; return true; } Bits q = *v.b; Lin l; int nc = 0; for (unsigned i = 0; i < q.size(); i++) { if (q[i] == 0) continue; if (i > 40) return false; if (q[i] == 1) l = l + Lin((i64)1 << i); else { l = l + Lin::var(bitVar(q[i]), (i64)1 << i); nc++; } } out = l; return nc <= 8; };
      Lin x, y; if (asLin(a, x) && asLin(b, y)) return mkL(op == Instruction::Add ? x + y : x - y, w);
    }
  }
  Bits x = toBits(a), y = toBits(b), r(w);
  switch (op) {
  case Instruction::And: for (unsigned i = 0; i < w; i++) r[i] = B.And(x[i], y[i]); return mkB(r);
  case Instruction::Or: for (unsigned i = 0; i < w; i++) r[i] = B.Or(x[i], y[i]); return mkB(r);
  case Instruction::Xor: for (unsigned i = 0; i < w; i++) r[i] = B.Xor(x[i], y[i]); return mkB(r);
  case Instruction::Shl: for (unsigned i = 0; i < w; i++) r[i] = i >= sh ? x[i - sh] : 0; return mkB(r);
  case Instruction::LShr: for (unsigned i = 0; i < w; i++) r[i] = i + sh < w ? x[i + sh] : 0; return mkB(r);
  case Instruction::AShr: for (unsigned i = 0; i < w; i++) r[i] = i + sh < w ? x[i + sh] : x[w - 1]; return mkB(r);
  case Instruction::Add: return mkB(ripple(x, y, 0));
  case Instruction::Sub: { Bits ny(w); for (unsigned i = 0; i < w; i++) ny[i] = B.Not(y[i]); return mkB(ripple(x, ny, 1)); }
  case Instruction::Mul: {
    int nx = 0, ny = 0; for (unsigned i = 0; i < w; i++) { nx += x[i] > 1; ny += y[i] > 1; } if (nx && (ny == 0 || ny > nx)) std::swap(x, y);
    // y has the (fewer) symbolic bits now or is symbolic; shift-and-add over x
    if (nx && ny && std::min(nx, ny) > 10) unk("product of two data words");
    Bits acc(w, 0); bool first = true; for (unsigned i = 0; i < w; i++) { if (x[i] == 0) continue; Bits t(w, 0); for (unsigned j = i; j < w; j++) t[j] = B.And(y[j - i], x[i]); acc = first ? t : ripple(acc, t, 0); first = false; }
    return mkB(acc); }
  case Instruction::UDiv: case Instruction::URem: if (cb) { uint64_t d = uval(b); if (d && !(d & (d - 1))) { unsigned k = 0; while ((1ull << k) < d) k++; for (unsigned i = 0; i < w; i++) r[i] = op == Instruction::UDiv ? (i + k < w ? x[i + k] : 0) : (i < k ? x[i] : 0); return mkB(r); } } break;
  case Instruction::SDiv: case Instruction::SRem: if (cb && x[w - 1] == 0) { i64 d = b.l.c; if (d > 0 && !(d & (d - 1))) return binopS(s, op == Instruction::SDiv ? Instruction::UDiv : Instruction::URem, a, b, w, I); } break;
  }
  unk("arithmetic on data bits");
}
Val Engine::binop(State &s, unsigned op, const Val &a, const Val &b, Type *ty, const Instruction *I) {
  if (ty->isFPOrFPVectorTy()) {
    if (a.k == VFloat && b.k == VFloat) { Val v = a; switch (op) { case Instruction::FAdd: v.f = a.f + b.f; break; case Instruction::FSub: v.f = a.f - b.f; break; case Instruction::FMul: v.f = a.f * b.f; break; case Instruction::FDiv: v.f = a.f / b.f; break; default: unk("float op"); } if (v.w == 32) v.f = (float)v.f; return v; }
    return mkTop(width(ty), "floating point arithmetic");
  }
  if (auto *vt = dyn_cast<FixedVectorType>(ty)) {
    if (op == Instruction::And || op == Instruction::Or || op == Instruction::Xor) return binopS(s, op, a, b, width(ty), I);
    unsigned n = vt->getNumElements(), ew = width(vt->getElementType()); if (a.k == VAgg || b.k == VAgg) { auto x = lanes(a, n, ew), y = lanes(b, n, ew); for (unsigned i = 0; i < n; i++) x[i] = binopS(s, op, x[i], y[i], ew, I); return mkLanes(x); }
    Bits x = toBits(a), y = toBits(b), r;
    for (unsigned i = 0; i < n; i++) { Bits e = toBits(binopS(s, op, mkB(Bits(x.begin() + i * ew, x.begin() + (i + 1) * ew)), mkB(Bits(y.begin() + i * ew, y.begin() + (i + 1) * ew)), ew, I)); r.insert(r.end(), e.begin(), e.end()); }
    return mkB(r);
  }
  return binopS(s, op, a, b, width(ty), I);
}
Val Engine::cmp(State &s, unsigned pred, const Val &a, const Val &b, Type *ty) {
  if (a.k == VTop) return mkTop(1, a.why); if (b.k == VTop) return mkTop(1, b.why);
  auto T = [&](bool v) { return mkC(v ? 1 : 0, 1); };
  if (ty->isPointerTy() || a.k == VPtr || b.k == VPtr || a.k == VFn || b.k == VFn) {
    if (a.k == VFn || b.k == VFn) { bool e = a.k == b.k && a.fn == b.fn; return T(pred == CmpInst::ICMP_EQ ? e : !e); }
    auto P = [&](const Val &v) { if (v.k == VPtr) return v; if (isConst(v)) return mkP(0, v.l); unk("pointer comparison"); };
    Val p = P(a), q = P(b);
    if (p.obj != q.obj) {
      if (pred == CmpInst::ICMP_EQ) return T(false); if (pred == CmpInst::ICMP_NE) return T(true);
      if (p.obj == 0) return T(pred == CmpInst::ICMP_ULT || pred == CmpInst::ICMP_ULE); if (q.obj == 0) return T(pred == CmpInst::ICMP_UGT || pred == CmpInst::ICMP_UGE);
      unk("ordering of unrelated pointers");
    }
    Lin d = p.l - q.l;
    switch (pred) {
    case CmpInst::ICMP_EQ: return T(decideEQ0(s, d)); case CmpInst::ICMP_NE: return T(!decideEQ0(s, d));
    case CmpInst::ICMP_ULT: case CmpInst::ICMP_SLT: return T(!decideGE0(s, d)); case CmpInst::ICMP_UGE: case CmpInst::ICMP_SGE: return T(decideGE0(s, d));
    case CmpInst::ICMP_UGT: case CmpInst::ICMP_SGT: return T(decideGE0(s, d - Lin(1))); case CmpInst::ICMP_ULE: case CmpInst::ICMP_SLE: return T(!decideGE0(s, d - Lin(1)));
    }
  }
  if (auto *vt = dyn_cast<FixedVectorType>(ty)) {
    unsigned n = vt->getNumElements(), ew = width(vt->getElementType()); Bits x = toBits(a), y = toBits(b), r;
    for (unsigned i = 0; i < n; i++) r.push_back(toBits(cmp(s, pred, mkB(Bits(x.begin() + i * ew, x.begin() + (i + 1) * ew)), mkB(Bits(y.begin() + i * ew, y.begin() + (i + 1) * ew)), vt->getElementType()))[0]);
    return mkB(r);
  }
  unsigned w = a.w;
  if (isConst(a) && isConst(b) && w <= 64) {
    uint64_t x = uval(a), y = uval(b); i64 sx = a.l.c, sy = b.l.c;
    switch (pred) { case CmpInst::ICMP_EQ: return T(x == y); case CmpInst::ICMP_NE: return T(x != y); case CmpInst::ICMP_ULT: return T(x < y); case CmpInst::ICMP_ULE: return T(x <= y); case CmpInst::ICMP_UGT: return T(x > y); case CmpInst::ICMP_UGE: return T(x >= y);
      case CmpInst::ICMP_SLT: return T(sx < sy); case CmpInst::ICMP_SLE: return T(sx <= sy); case CmpInst::ICMP_SGT: return T(sx > sy); case CmpInst::ICMP_SGE: return T(sx >= sy); }
  }
  if (a.k == VLin && b.k == VLin && (paramLin(a) || paramLin(b))) {
    Lin d = a.l - b.l;
    bool uns = pred == CmpInst::ICMP_ULT || pred == CmpInst::ICMP_ULE || pred == CmpInst::ICMP_UGT || pred == CmpInst::ICMP_UGE;
    if (uns) { bool na = !decideGE0(s, a.l), nb = !decideGE0(s, b.l); if (na != nb) { bool lt = nb; return T(pred == CmpInst::ICMP_ULT || pred == CmpInst::ICMP_ULE ? lt : !lt); } }
    switch (pred) {
    case CmpInst::ICMP_EQ: return T(decideEQ0(s, d)); case CmpInst::ICMP_NE: return T(!decideEQ0(s, d));
    case CmpInst::ICMP_ULT: case CmpInst::ICMP_SLT: return T(!decideGE0(s, d)); case CmpInst::ICMP_UGE: case CmpInst::ICMP_SGE: return T(decideGE0(s, d));
    case CmpInst::ICMP_UGT: case CmpInst::ICMP_SGT: return T(decideGE0(s, d - Lin(1))); case CmpInst::ICMP_ULE: case CmpInst::ICMP_SLE: return T(!decideGE0(s, d - Lin(1)));
    }
  }
  if (paramLin(a) || paramLin(b)) unk("comparison of data with an unbounded quantity");
  if (a.k == VLin && b.k == VLin) { // bit-sums: interval first
    Lin d = a.l - b.l; if (proveGE0(s, d - Lin(1)) || proveGE0(s, d * -1 - Lin(1)) || d.isConst()) {
      bool gt = d.isConst() ? d.c > 0 : proveGE0(s, d - Lin(1)), eq = d.isConst() && d.c == 0;
      switch (pred) { case CmpInst::ICMP_EQ: return T(eq); case CmpInst::ICMP_NE: return T(!eq); case CmpInst::ICMP_UGT: case CmpInst::ICMP_SGT: return T(gt); case CmpInst::ICMP_UGE: case CmpInst::ICMP_SGE: return T(gt || eq); case CmpInst::ICMP_ULT: case CmpInst::ICMP_SLT: return T(!gt && !eq); default: return T(!gt); }
    }
    if (proveGE0(s, d)) { if (pred == CmpInst::ICMP_UGE || pred == CmpInst::ICMP_SGE) return T(true); if (pred == CmpInst::ICMP_ULT || pred == CmpInst::ICMP_SLT) return T(false); }
    if (proveGE0(s, d * -1)) { if (pred == CmpInst::ICMP_ULE || pred == CmpInst::ICMP_SLE) return T(true); if (pred == CmpInst::ICMP_UGT || pred == CmpInst::ICMP_SGT) return T(false); }
  }
  Bits x = toBits(a), y = toBits(b); int nx = 0, ny = 0; for (auto &n : x) { n = simp(s, n); nx += n > 1; } for (auto &n : y) { n = simp(s, n); ny += n > 1; }
  if (pred == CmpInst::ICMP_EQ || pred == CmpInst::ICMP_NE) {
    bool ne = pred == CmpInst::ICMP_NE; std::vector<Node> c; for (unsigned i = 0; i < w; i++) { Node e = B.Xnor(x[i], y[i]); if (e == 0) return T(ne); if (e != 1) c.push_back(e); }
    if (c.empty()) return T(!ne);
    if (c.size() <= 2 || nx == 0 || ny == 0) { Node r = 1; size_t n0 = B.n.size(); for (auto it = c.rbegin(); it != c.rend() && B.n.size() - n0 < 3000; ++it) r = B.And(*it, r); if (B.n.size() - n0 < 3000) return mkB({ne ? B.Not(r) : r}); } // a conjunction whose diagram grows is split into paths instead
    return T(decideAll(s, c) != ne);
  }
  bool sg = pred == CmpInst::ICMP_SLT || pred == CmpInst::ICMP_SLE || pred == CmpInst::ICMP_SGT || pred == CmpInst::ICMP_SGE;
  if (sg) { x[w - 1] = B.Not(x[w - 1]); y[w - 1] = B.Not(y[w - 1]); }
  bool swap = pred == CmpInst::ICMP_UGT || pred == CmpInst::ICMP_SGT || pred == CmpInst::ICMP_ULE || pred == CmpInst::ICMP_SLE; if (swap) std::swap(x, y);
  Node lt = 0; for (unsigned i = 0; i < w; i++) lt = B.ite(B.Xor(x[i], y[i]), y[i], lt);
  bool neg = pred == CmpInst::ICMP_UGE || pred == CmpInst::ICMP_SGE || pred == CmpInst::ICMP_ULE || pred == CmpInst::ICMP_SLE;
  return mkB({neg ? B.Not(lt) : lt});
}
Val Engine::castOp(State &s, unsigned op, const Val &a, Type *from, Type *to, const Instruction *I) {
  if (a.k == VTop) { Val r = a; r.w = width(to); return r; }
  unsigned w = width(to), fw = width(from);
  switch (op) {
  case Instruction::BitCast: case Instruction::AddrSpaceCast: { Val r = a; r.w = w; return r; }
  case Instruction::PtrToInt: if (a.k == VPtr && a.obj == 0 && w <= 64) return mkL(a.l, w); if (w == 64) return a; unk("pointer truncated");
  case Instruction::IntToPtr: if (a.k == VPtr) return a; if (isConst(a)) return mkP(0, a.l); return mkTop(64, "integer to pointer");
  case Instruction::Trunc: case Instruction::ZExt: case Instruction::SExt: {
    if (auto *vt = dyn_cast<FixedVectorType>(from)) {
      unsigned n = vt->getNumElements(), ew = width(vt->getElementType()), tw = width(cast<FixedVectorType>(to)->getElementType()); Bits x = toBits(a), r;
      for (unsigned i = 0; i < n; i++) for (unsigned j = 0; j < tw; j++) r.push_back(j < ew ? x[i * ew + j] : op == Instruction::SExt ? x[i * ew + ew - 1] : 0); return mkB(r);
    }
    if (isConst(a)) return w > 64 ? [&] { Bits b = toBits(a); b.resize(w, op == Instruction::SExt ? b.back() : 0); return mkB(b); }() : mkC(op == Instruction::SExt ? a.l.c : (i64)uval(a), w);
    if (a.k == VPtr) unk("pointer width change");
    if (a.k == VLin) {
      bool par = paramLin(a);
      if (op == Instruction::ZExt) { if (par || proveGE0(s, a.l)) { if (!decideGE0(s, a.l)) unk("zero extension of a negative quantity"); return mkL(a.l, w); } }
      else if (op == Instruction::SExt) { if (par) return mkL(a.l, w); if (fw >= 2 && proveGE0(s, Lin(fw > 62 ? ((i64)1 << 62) : ((i64)1 << (fw - 1)) - 1) - a.l)) return mkL(a.l, w); }
      else {
        if (w >= 63) return mkL(a.l, w);
        i64 mx = ((i64)1 << w) - 1;
        if (proveGE0(s, Lin(mx) - a.l) && proveGE0(s, a.l + Lin((i64)1 << (w - 1)))) { if (proveGE0(s, a.l) || proveGE0(s, Lin(mx >> 1) - a.l)) return mkL(a.l, w); }
        if (par) {
          bool mult = true; for (auto &p : a.l.t) if (p.second % (mx + 1)) mult = false; if (mult) return mkC(a.l.c, w);
          if (decideGE0(s, Lin(mx) - a.l) && decideGE0(s, a.l)) return mkL(a.l, w);
          if (decideGE0(s, a.l * -1) && decideGE0(s, a.l + Lin((mx + 1) >> 1))) return mkL(a.l, w);
          narrowings.insert(loc(I)); 
          if (w >= 16) { // the quantity really exceeds the narrower type on this path; harmless only where its low bits alone are used
            bool low = I != nullptr; if (I) for (auto *u : I->users()) { auto *bo = dyn_cast<BinaryOperator>(u); if (!(isa<TruncInst>(u) || (bo && bo->getOpcode() == Instruction::And && (isa<ConstantInt>(bo->getOperand(0)) || isa<ConstantInt>(bo->getOperand(1)))))) low = false; }
            if (!low) reportDirect = true, report(s, "narrowing", I, "the quantity " + str(a.l) + ", which has no upper bound here, is truncated to " + std::to_string(w) + " bits"), reportDirect = false;
            cuts.insert("quantity exceeding " + std::to_string(w) + " bits truncated at " + loc(I)); throw Unknown{"!cut"}; }
          unk("narrowing of an unbounded quantity to " + std::to_string(w) + " bits at " + loc(I));
        }
      }
    }
    Bits b = toBits(a); b.resize(w, op == Instruction::SExt ? b.back() : 0); return mkB(b); }
  case Instruction::UIToFP: case Instruction::SIToFP: if (isConst(a)) { Val v; v.k = VFloat; v.w = w; v.f = op == Instruction::UIToFP ? (double)uval(a) : (double)a.l.c; if (w == 32) v.f = (float)v.f; return v; } if (paramLin(a)) { i64 mx = (i64)1 << (w == 32 ? 24 : 53); if (!proveGE0(s, Lin(mx) - a.l)) { narrowings.insert(loc(I)); if (I) reportDirect = true, report(s, "narrowing", I, "the quantity " + str(a.l) + ", which has no upper bound here, is converted to a floating point type with " + std::to_string(w == 32 ? 24 : 53) + " significant bits"), reportDirect = false; } }
    return mkTop(w, "floating point conversion of a symbolic quantity at " + loc(I));
  case Instruction::FPToUI: case Instruction::FPToSI: if (a.k == VFloat) return mkC(op == Instruction::FPToUI ? (i64)(uint64_t)a.f : (i64)a.f, w); return mkTop(w, "floating point conversion");
  case Instruction::FPExt: case Instruction::FPTrunc: { Val v = a; v.w = w; if (w == 32) v.f = (float)v.f; return v; }
  }
  unk("cast");
}
Val Engine::gep(State &s, const User *g) {
  auto *go = cast<GEPOperator>(g); Val p = eval(s, go->getPointerOperand());
  if (go->getType()->isVectorTy()) unk("vector gep");
  Lin off = p.l; bool top = p.k == VTop;
  if (p.k == VLin && isConst(p)) p = mkP(0, p.l);
  for (auto it = gep_type_begin(go), e = gep_type_end(go); it != e; ++it) {
    Value *ix = it.getOperand();
    if (auto *st = it.getStructTypeOrNull()) { off = off + Lin((i64)DL.getStructLayout(st)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue())); continue; }
    i64 sz = DL.getTypeAllocSize(it.getIndexedType()).getFixedValue(); Val v = eval(s, ix);
    if (v.k == VTop) return v; if (v.k == VBits) { // data-dependent index: split on its bits
      Bits b = *v.b; i64 x = 0; for (unsigned i = 0; i < b.size(); i++) if (decideNode(s, b[i])) x |= (i64)1 << i; if (b.size() < 64 && b.size() && (x >> (b.size() - 1)) & 1) x |= ~(((i64)1 << b.size()) - 1); v = mkC(x, 64); }
    if (v.k != VLin) unk("gep index"); off = off + v.l * sz;
  }
  if (top) return p; if (p.k != VPtr) unk("gep on non-pointer");
  return mkP(p.obj, off);
}
Val Engine::select(State &s, const Val &c, const Val &a, const Val &b, Type *ty) {
  if (c.k == VTop) { unk("selection on an unknown condition: " + c.why); }
  if (isConst(c) && c.w == 1) return c.l.c ? a : b;
  if (auto *vt = dyn_cast<FixedVectorType>(ty)) if (c.w > 1) { unsigned n = vt->getNumElements(), ew = width(vt->getElementType()); Bits x = toBits(a), y = toBits(b), m = toBits(c), r; for (unsigned i = 0; i < n; i++) for (unsigned j = 0; j < ew; j++) r.push_back(B.ite(m[i], x[i * ew + j], y[i * ew + j])); return mkB(r); }
  Node n = simp(s, toBits(c)[0]); if (n < 2) return n ? a : b;
  auto plain = [](const Val &v) { return v.k == VBits || (v.k == VLin && !paramLin(v)); };
  if (plain(a) && plain(b) && !ty->isPointerTy() && !ty->isAggregateType()) { Bits x = toBits(a), y = toBits(b), r(x.size()); for (size_t i = 0; i < x.size(); i++) r[i] = B.ite(n, x[i], y[i]); return mkB(r); }
  return decideNode(s, n) ? a : b;
}
void Engine::ret(State &s, Val v, bool has) {
  Frame &f = top(s); for (int id : f.allocas) { if (s.objs[id].use_count() > 1) s.objs[id] = std::make_shared<Obj>(*s.objs[id]); s.objs[id]->alive = false; s.objs[id]->cells.clear(); s.objs[id]->segs.clear(); }
  const CallBase *c = f.call; s.st.pop_back();
  if (s.st.empty()) { s.outcome = 1; s.ret = v; return; }
  if (has && c && !c->getType()->isVoidTy()) set(s, c, v);
  if (auto *inv = dyn_cast<InvokeInst>(c)) branch(s, inv->getNormalDest()); else { Frame &t = top(s); ++t.it; }
}
void Engine::unwind(State &s) {
  for (;;) {
    Frame &f = top(s); const CallBase *c = f.call;
    for (int id : f.allocas) { s.objs[id] = std::make_shared<Obj>(*s.objs[id]); s.objs[id]->alive = false; s.objs[id]->cells.clear(); }
    s.st.pop_back(); if (s.st.empty()) { s.outcome = 2; return; }
    if (auto *inv = dyn_cast_or_null<InvokeInst>(c)) { branch(s, inv->getUnwindDest()); return; }
  }
}
void Engine::branch(State &s, const BasicBlock *to) {
  Frame &f = top(s); const BasicBlock *from = f.bb; std::vector<std::pair<const PHINode *, Val>> nv;
  for (auto &I : *to) { auto *p = dyn_cast<PHINode>(&I); if (!p) break; nv.push_back({p, eval(s, p->getIncomingValueForBlock(from))}); }
  Frame &g = top(s); for (auto &x : nv) g.r[g.fi->num.at(x.first)] = x.second;
  g.prev = from; g.bb = to; g.it = to->getFirstNonPHI()->getIterator();
  const Loop *L = g.fi->li->getLoopFor(to);
  if (L && L->getHeader() == to) {
    if (!L->contains(from)) { g.lh[to] = LoopHist(); }
    else if (!headerArrival(s, to)) { s.outcome = 4; s.outcomeWhy = "subsumed"; return; }
  }
}
static uint64_t gSteps = 0;
void Engine::step(State &s) {
  Frame &f = *s.st.back(); const Instruction *I = &*f.it; curI = I; s.steps++; cs.steps++;
  exec(s, *I);
}
void Engine::exec(State &s, const Instruction &I) {
  auto next = [&]() { Frame &f = top(s); ++f.it; };
  if (auto *bo = dyn_cast<BinaryOperator>(&I)) { set(s, &I, binop(s, bo->getOpcode(), eval(s, bo->getOperand(0)), eval(s, bo->getOperand(1)), I.getType(), &I)); next(); return; }
  switch (I.getOpcode()) {
  case Instruction::Br: { auto *b = cast<BranchInst>(&I); if (b->isUnconditional()) { branch(s, b->getSuccessor(0)); return; }
    Val c = eval(s, b->getCondition()); if (c.k == VTop) unk("branch on an unknown condition: " + c.why); bool t;
    if (isConst(c)) t = c.l.c != 0; else { Node n = toBits(c)[0]; t = decideNode(s, n); }
    branch(s, b->getSuccessor(t ? 0 : 1)); return; }
  case Instruction::Switch: { auto *sw = cast<SwitchInst>(&I); Val c = eval(s, sw->getCondition()); if (c.k == VTop) unk("switch on an unknown value: " + c.why);
    for (auto &cs : sw->cases()) { Val k = evalConst(s, cs.getCaseValue()); bool eq; if (paramLin(c)) eq = decideEQ0(s, c.l - k.l); else if (isConst(c)) eq = uval(c) == uval(k); else { Bits x = toBits(c), y = toBits(k); std::vector<Node> v; for (size_t i = 0; i < x.size(); i++) v.push_back(B.Xnor(x[i], y[i])); eq = decideAll(s, v); } if (eq) { branch(s, cs.getCaseSuccessor()); return; } }
    branch(s, sw->getDefaultDest()); return; }
  case Instruction::Ret: { auto *r = cast<ReturnInst>(&I); bool h = r->getReturnValue(); Val v; if (h) v = eval(s, r->getReturnValue()); ret(s, v, h); return; }
  case Instruction::Unreachable: report(s, "ub-unreachable", &I, "control reaches an unreachable statement"); s.stuck = true; return;
  case Instruction::Alloca: { auto *a = cast<AllocaInst>(&I); i64 n = DL.getTypeAllocSize(a->getAllocatedType()).getFixedValue(); Val c = eval(s, a->getArraySize()); if (!isConst(c)) unk("variable sized stack array"); int id = newObj(s, "local " + (a->hasName() ? a->getName().str() : std::string("tmp")), false, 1, Lin(n * c.l.c)); Frame &f = top(s); f.allocas.push_back(id); mut(s, id).align = 0; set(s, &I, mkP(id, Lin(0))); next(); return; }
  case Instruction::Load: { Val v = load(s, eval(s, I.getOperand(0)), I.getType()); if (s.stuck) return; auto *L = cast<LoadInst>(&I); Val p = eval(s, I.getOperand(0)); i64 al = L->getAlign().value(); if (I.getType()->isVectorTy() && al > 1 && p.k == VPtr && p.obj && obj(s, p.obj).words) { Lin e = p.l + Lin(obj(s, p.obj).align); Lin r = e - floorDiv(s, e, al) * al; if (!decideEQ0(s, r)) report(s, "ub-align", &I, "aligned vector load from a misaligned address"); } set(s, &I, v); next(); return; }
  case Instruction::Store: { Val v = eval(s, I.getOperand(0)), p = eval(s, I.getOperand(1)); auto *S = cast<StoreInst>(&I); i64 al = S->getAlign().value();
    if (v.k != VTop && I.getOperand(0)->getType()->isVectorTy() && al > 1 && p.k == VPtr && p.obj && obj(s, p.obj).words) { Lin e = p.l + Lin(obj(s, p.obj).align); Lin r = e - floorDiv(s, e, al) * al; if (!decideEQ0(s, r)) report(s, "ub-align", &I, "aligned vector store to a misaligned address"); }
    store(s, p, v, I.getOperand(0)->getType()); if (s.stuck) return; next(); return; }
  case Instruction::GetElementPtr: set(s, &I, gep(s, &I)); next(); return;
  case Instruction::ICmp: set(s, &I, cmp(s, cast<ICmpInst>(I).getPredicate(), eval(s, I.getOperand(0)), eval(s, I.getOperand(1)), I.getOperand(0)->getType())); next(); return;
  case Instruction::FCmp: { Val a = eval(s, I.getOperand(0)), b = eval(s, I.getOperand(1)); if (a.k != VFloat || b.k != VFloat) { set(s, &I, mkTop(1, "floating point comparison")); next(); return; } bool r; switch (cast<FCmpInst>(I).getPredicate()) { case CmpInst::FCMP_OGT: case CmpInst::FCMP_UGT: r = a.f > b.f; break; case CmpInst::FCMP_OGE: case CmpInst::FCMP_UGE: r = a.f >= b.f; break; case CmpInst::FCMP_OLT: case CmpInst::FCMP_ULT: r = a.f < b.f; break; case CmpInst::FCMP_OLE: case CmpInst::FCMP_ULE: r = a.f <= b.f; break; case CmpInst::FCMP_OEQ: case CmpInst::FCMP_UEQ: r = a.f == b.f; break; default: r = a.f != b.f; } set(s, &I, mkC(r, 1)); next(); return; }
  case Instruction::Select: set(s, &I, select(s, eval(s, I.getOperand(0)), eval(s, I.getOperand(1)), eval(s, I.getOperand(2)), I.getType())); next(); return;
  case Instruction::Freeze: set(s, &I, eval(s, I.getOperand(0))); next(); return;
  case Instruction::ExtractValue: { Val v = eval(s, I.getOperand(0)); for (unsigned i : cast<ExtractValueInst>(I).indices()) { if (v.k != VAgg) { v = mkTop(width(I.getType()), "field of unknown aggregate"); break; } v = Val((*v.agg)[i]); } set(s, &I, v); next(); return; }
  case Instruction::InsertValue: { auto *iv = cast<InsertValueInst>(&I); Val v = eval(s, iv->getAggregateOperand()), x = eval(s, iv->getInsertedValueOperand()); if (iv->getNumIndices() != 1 || v.k != VAgg) unk("nested insertvalue"); auto a = std::make_shared<std::vector<Val>>(*v.agg); (*a)[iv->getIndices()[0]] = x; v.agg = a; set(s, &I, v); next(); return; }
  case Instruction::ExtractElement: { Val v = eval(s, I.getOperand(0)), i = eval(s, I.getOperand(1)); if (!isConst(i)) unk("extractelement index"); unsigned ew = width(I.getType()); set(s, &I, sliceVal(v, i.l.c * ew, ew)); next(); return; }
  case Instruction::InsertElement: { Val v = eval(s, I.getOperand(0)), x = eval(s, I.getOperand(1)), i = eval(s, I.getOperand(2)); if (!isConst(i)) unk("insertelement index"); if (x.k == VTop) { set(s, &I, x); next(); return; } Bits b = toBits(v), e = toBits(x); for (unsigned q = 0; q < e.size(); q++) b[i.l.c * e.size() + q] = e[q]; set(s, &I, mkB(b)); next(); return; }
  case Instruction::ShuffleVector: { auto *sv = cast<ShuffleVectorInst>(&I); Bits a = toBits(eval(s, I.getOperand(0))), b = toBits(eval(s, I.getOperand(1))), r; unsigned ew = width(cast<FixedVectorType>(I.getType())->getElementType()), n = a.size() / ew; for (int m : sv->getShuffleMask()) for (unsigned q = 0; q < ew; q++) r.push_back(m < 0 ? 0 : (unsigned)m < n ? a[m * ew + q] : b[(m - n) * ew + q]); set(s, &I, mkB(r)); next(); return; }
  case Instruction::LandingPad: { auto a = std::make_shared<std::vector<Val>>(); a->push_back(mkP(0, Lin(1))); a->push_back(mkC(1, 32)); Val v; v.k = VAgg; v.agg = a; set(s, &I, v); next(); return; }
  case Instruction::Resume: unwind(s); return;
  case Instruction::Call: case Instruction::Invoke: call(s, cast<CallBase>(I)); return;
  case Instruction::Fence: next(); return;
  case Instruction::FNeg: { Val v = eval(s, I.getOperand(0)); if (v.k == VFloat) v.f = -v.f; set(s, &I, v); next(); return; }
  }
  if (I.isCast()) { set(s, &I, castOp(s, I.getOpcode(), eval(s, I.getOperand(0)), I.getOperand(0)->getType(), I.getType(), &I)); next(); return; }
  unk(std::string("unsupported instruction ") + I.getOpcodeName());
}
// ---------------------------------------------------------------- calls
void Engine::call(State &s, const CallBase &CB) {
  const Function *f = CB.getCalledFunction();
  if (!f) { if (!CB.isInlineAsm()) { Val c = eval(s, CB.getCalledOperand()); if (c.k == VFn) f = c.fn; } }
  std::vector<Val> a; for (auto &x : CB.args()) { if (x->getType()->isMetadataTy()) { a.push_back(Val()); continue; } a.push_back(eval(s, x)); }
  Val res; 
  if (builtin(s, CB, f, a, res)) {
    if (s.stuck || s.outcome) return; 
    if (s.st.empty()) return;
    if (s.outcomeWhy == "unwound") { s.outcomeWhy.clear(); return; }
    if (!CB.getType()->isVoidTy()) set(s, &CB, res);
    if (auto *inv = dyn_cast<InvokeInst>(&CB)) branch(s, inv->getNormalDest()); else { Frame &t = top(s); ++t.it; }
    return;
  }
  if (!f || f->isDeclaration()) unk("call to unmodelled function " + (f ? demangle(f->getName().str()) : std::string("(indirect)")));
  if (s.st.size() > 200) unk("call depth");
  { std::string n = demangle(f->getName().str()); if (n.find("bit::") != std::string::npos || n == "popcnt" || n.find("popcnt") != std::string::npos || n.find("popcount") != std::string::npos) funcsSeen.insert(n); }
  auto nf = std::make_shared<Frame>(); nf->fi = info(f); nf->r.resize(nf->fi->nregs); nf->call = &CB; nf->bb = &f->getEntryBlock(); nf->it = nf->bb->begin();
  for (unsigned i = 0; i < f->arg_size(); i++) {
    Val v = a[i];
    if (f->getArg(i)->hasByValAttr() && v.k == VPtr) { Type *bt = f->getParamByValType(i); i64 n = DL.getTypeAllocSize(bt).getFixedValue(); int id = newObj(s, "byval", false, 1, Lin(n)); nf->allocas.push_back(id); Val d = mkP(id, Lin(0)); memCopy(s, d, v, mkC(n, 64)); v = d; }
    nf->r[i] = v;
  }
  s.st.push_back(nf);
}
bool Engine::builtin(State &s, const CallBase &CB, const Function *f, std::vector<Val> &a, Val &res) {
  unsigned w = CB.getType()->isVoidTy() ? 0 : width(CB.getType());
  auto vecmap = [&](std::function<Val(const Val &, unsigned)> fn) { auto *vt = dyn_cast<FixedVectorType>(CB.getType()); if (!vt) return fn(a[0], w); unsigned n = vt->getNumElements(), ew = width(vt->getElementType()); Bits x = toBits(a[0]), r; for (unsigned i = 0; i < n; i++) { Bits e = toBits(fn(mkB(Bits(x.begin() + i * ew, x.begin() + (i + 1) * ew)), ew)); r.insert(r.end(), e.begin(), e.end()); } return mkB(r); };
  auto popc = [&](const Val &v, unsigned ww) { if (isConst(v)) return mkC(__builtin_popcountll(uval(v)), ww); Lin l; for (Node n : toBits(v)) { n = simp(s, n); if (n == 1) l = l + Lin(1); else if (n) l = l + Lin::var(bitVar(n)); } return mkL(l, ww); };
  if (CB.isInlineAsm()) {
    auto *ia = cast<InlineAsm>(CB.getCalledOperand()); std::string t = ia->getAsmString();
    if (C->ext && C->ext(*this, s, &CB, nullptr, "asm:" + t, a, res)) return true;
    if (t.find("popcnt") != std::string::npos) { res = popc(a[0], w); return true; }
    if (extCall && extCall(*this, &CB, "asm:" + t, a, res)) return true;
    unk("inline assembly " + t);
  }
  if (!f) return false;
  std::string n = f->getName().str();
  if (f->isIntrinsic()) {
    auto id = f->getIntrinsicID();
    switch (id) {
    case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::donothing: case Intrinsic::invariant_start: case Intrinsic::stackrestore: case Intrinsic::prefetch: return true;
    case Intrinsic::assume: { Val c = a[0]; if (isConst(c) && !c.l.c) { report(s, "ub", curI, "violated assumption"); s.stuck = true; } return true; }
    case Intrinsic::expect: res = a[0]; return true;
    case Intrinsic::is_constant: res = mkC(0, 1); return true;
    case Intrinsic::stacksave: res = mkP(0, Lin(0)); return true;
    case Intrinsic::objectsize: res = mkC(-1, w); return true;
    case Intrinsic::memcpy: case Intrinsic::memmove: memCopy(s, a[0], a[1], a[2]); return true;
    case Intrinsic::memset: memFill(s, a[0], a[1], a[2]); return true;
    case Intrinsic::trap: s.outcome = 3; s.outcomeWhy = "trap"; s.throwSite = &CB; return true;
    case Intrinsic::eh_typeid_for: res = mkC(1, 32); return true;
    case Intrinsic::ctpop: res = vecmap(popc); return true;
    case Intrinsic::bswap: { Bits b = toBits(a[0]), r; for (int i = w / 8 - 1; i >= 0; i--) r.insert(r.end(), b.begin() + i * 8, b.begin() + i * 8 + 8); res = mkB(r); return true; }
    case Intrinsic::bitreverse: { Bits b = toBits(a[0]); std::reverse(b.begin(), b.end()); res = mkB(b); return true; }
    case Intrinsic::cttz: case Intrinsic::ctlz: { if (a[0].k == VTop) { res = a[0]; return true; } Bits b = toBits(a[0]); if (id == Intrinsic::ctlz) std::reverse(b.begin(), b.end()); int k = decideFirstSet(s, b); if (k == (int)w && isConst(a[1]) && a[1].l.c) { report(s, "ub", curI, "count of zeros of a zero value"); res = mkB(undefBits(w, "ctz(0)")); return true; } res = mkC(k, w); return true; }
    case Intrinsic::fshl: case Intrinsic::fshr: { if (!isConst(a[2])) unk("funnel shift amount"); unsigned k = uval(a[2]) % w; Bits hi = toBits(a[0]), lo = toBits(a[1]), c = lo, r; c.insert(c.end(), hi.begin(), hi.end()); unsigned st = id == Intrinsic::fshl ? w - k : k; for (unsigned i = 0; i < w; i++) r.push_back(c[st + i]); res = mkB(r); return true; }
    case Intrinsic::umin: case Intrinsic::umax: case Intrinsic::smin: case Intrinsic::smax: { if (isa<FixedVectorType>(CB.getType())) break; unsigned p = id == Intrinsic::umin ? CmpInst::ICMP_ULT : id == Intrinsic::umax ? CmpInst::ICMP_UGT : id == Intrinsic::smin ? CmpInst::ICMP_SLT : CmpInst::ICMP_SGT; Val c = cmp(s, p, a[0], a[1], CB.getType()); res = select(s, c, a[0], a[1], CB.getType()); return true; }
    case Intrinsic::abs: { Val c = cmp(s, CmpInst::ICMP_SLT, a[0], mkC(0, w), CB.getType()); res = select(s, c, binop(s, Instruction::Sub, mkC(0, w), a[0], CB.getType(), &CB), a[0], CB.getType()); return true; }
    case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::umul_with_overflow: case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: {
      Type *t = CB.getArgOperand(0)->getType(); unsigned op = id == Intrinsic::umul_with_overflow ? Instruction::Mul : (id == Intrinsic::usub_with_overflow || id == Intrinsic::ssub_with_overflow) ? Instruction::Sub : Instruction::Add; Val r = binop(s, op, a[0], a[1], t, &CB), o = mkC(0, 1);
      if (isConst(a[0]) && isConst(a[1])) { uint64_t x = uval(a[0]), y = uval(a[1]); unsigned ww = a[0].w; __uint128_t m = id == Intrinsic::umul_with_overflow ? (__uint128_t)x * y : id == Intrinsic::usub_with_overflow ? (x < y ? ~(__uint128_t)0 : 0) : (__uint128_t)x + y; if (id == Intrinsic::umul_with_overflow || id == Intrinsic::uadd_with_overflow || id == Intrinsic::usub_with_overflow) o = mkC((m >> ww) != 0, 1); }
      else if (id == Intrinsic::usub_with_overflow) o = cmp(s, CmpInst::ICMP_ULT, a[0], a[1], t); else if (id == Intrinsic::uadd_with_overflow && !paramLin(a[0]) && !paramLin(a[1])) { Node c; ripple(toBits(a[0]), toBits(a[1]), 0, &c); o = mkB({c}); }
      auto ag = std::make_shared<std::vector<Val>>(); ag->push_back(r); ag->push_back(o); res = Val(); res.k = VAgg; res.agg = ag; return true; }
    case Intrinsic::usub_sat: { Val c = cmp(s, CmpInst::ICMP_ULT, a[0], a[1], CB.getType()); if (isa<FixedVectorType>(CB.getType())) break; res = select(s, c, mkC(0, w), binop(s, Instruction::Sub, a[0], a[1], CB.getType(), &CB), CB.getType()); return true; }
    case Intrinsic::ceil: case Intrinsic::floor: if (a[0].k == VFloat) { res = a[0]; res.f = id == Intrinsic::ceil ? std::ceil(a[0].f) : std::floor(a[0].f); } else res = mkTop(w, "floating point"); return true;
    case Intrinsic::x86_addcarry_64: case Intrinsic::x86_addcarry_32: case Intrinsic::x86_subborrow_64: case Intrinsic::x86_subborrow_32: {
      Bits x = toBits(a[1]), y = toBits(a[2]), c = toBits(a[0]); Node cin = 0; for (Node q : c) cin = B.Or(cin, q); Node co; bool sub = id == Intrinsic::x86_subborrow_64 || id == Intrinsic::x86_subborrow_32; Bits r; if (sub) { for (auto &q : y) q = B.Not(q); r = ripple(x, y, B.Not(cin), &co); co = B.Not(co); } else r = ripple(x, y, cin, &co);
      Bits c8(8, 0); c8[0] = co; auto ag = std::make_shared<std::vector<Val>>(); ag->push_back(mkB(c8)); ag->push_back(mkB(r)); res = Val(); res.k = VAgg; res.agg = ag; return true; }
    case Intrinsic::x86_sse2_pmovmskb_128: { Bits b = toBits(a[0]), r(32, 0); for (int i = 0; i < 16; i++) r[i] = b[i * 8 + 7]; res = mkB(r); return true; }
    case Intrinsic::x86_sse2_packsswb_128: case Intrinsic::x86_sse2_packssdw_128: { // signed saturation, lane by lane
      unsigned hw = id == Intrinsic::x86_sse2_packsswb_128 ? 8 : 16; Bits r; for (int q = 0; q < 2; q++) { Bits b = toBits(a[q]); for (unsigned l = 0; l < b.size() / (2 * hw); l++) { const Node *x = &b[l * 2 * hw]; Node same = 1; for (unsigned i = hw - 1; i < 2 * hw - 1; i++) same = B.And(same, B.Xnor(x[i], x[2 * hw - 1])); for (unsigned i = 0; i < hw; i++) r.push_back(B.ite(same, x[i], i == hw - 1 ? x[2 * hw - 1] : B.Not(x[2 * hw - 1]))); } }
      res = mkB(r); return true; }
    case Intrinsic::x86_avx2_pmovmskb: { Bits b = toBits(a[0]), r(32, 0); for (int i = 0; i < 32; i++) r[i] = b[i * 8 + 7]; res = mkB(r); return true; }
    case Intrinsic::x86_avx_movmsk_ps_256: { Bits b = toBits(a[0]), r(32, 0); for (int i = 0; i < 8; i++) r[i] = b[i * 32 + 31]; res = mkB(r); return true; }
    case Intrinsic::x86_avx_movmsk_pd_256: { Bits b = toBits(a[0]), r(32, 0); for (int i = 0; i < 4; i++) r[i] = b[i * 64 + 63]; res = mkB(r); return true; }
    case Intrinsic::x86_bmi_pext_32: case Intrinsic::x86_bmi_pext_64: { Bits b = toBits(a[0]); if (!isConst(a[1])) unk("pext with unknown mask"); uint64_t m = uval(a[1]); Bits r; for (size_t i = 0; i < b.size(); i++) if (m >> i & 1) r.push_back(b[i]); r.resize(b.size(), 0); res = mkB(r); return true; }
    case Intrinsic::x86_sse_movmsk_ps: { Bits b = toBits(a[0]), r(32, 0); for (int i = 0; i < 4; i++) r[i] = b[i * 32 + 31]; res = mkB(r); return true; }
    case Intrinsic::x86_sse2_movmsk_pd: { Bits b = toBits(a[0]), r(32, 0); for (int i = 0; i < 2; i++) r[i] = b[i * 64 + 63]; res = mkB(r); return true; }
    case Intrinsic::x86_avx2_psll_w: case Intrinsic::x86_avx2_psll_d: case Intrinsic::x86_avx2_psll_q: case Intrinsic::x86_avx2_psrl_w: case Intrinsic::x86_avx2_psrl_d: case Intrinsic::x86_avx2_psrl_q:
    case Intrinsic::x86_avx512_psll_w_512: case Intrinsic::x86_avx512_psll_d_512: case Intrinsic::x86_avx512_psll_q_512: case Intrinsic::x86_avx512_psrl_w_512: case Intrinsic::x86_avx512_psrl_d_512: case Intrinsic::x86_avx512_psrl_q_512:
    case Intrinsic::x86_sse2_psll_w: case Intrinsic::x86_sse2_psll_d: case Intrinsic::x86_sse2_psll_q: case Intrinsic::x86_sse2_psrl_w: case Intrinsic::x86_sse2_psrl_d: case Intrinsic::x86_sse2_psrl_q: case Intrinsic::x86_sse2_pslli_w: case Intrinsic::x86_sse2_pslli_d: case Intrinsic::x86_sse2_pslli_q: case Intrinsic::x86_sse2_psrli_w: case Intrinsic::x86_sse2_psrli_d: case Intrinsic::x86_sse2_psrli_q:
    case Intrinsic::x86_avx2_pslli_w: case Intrinsic::x86_avx2_pslli_d: case Intrinsic::x86_avx2_pslli_q: case Intrinsic::x86_avx2_psrli_w: case Intrinsic::x86_avx2_psrli_d: case Intrinsic::x86_avx2_psrli_q: case Intrinsic::x86_avx512_pslli_w_512: case Intrinsic::x86_avx512_pslli_d_512: case Intrinsic::x86_avx512_pslli_q_512: case Intrinsic::x86_avx512_psrli_w_512: case Intrinsic::x86_avx512_psrli_d_512: case Intrinsic::x86_avx512_psrli_q_512: {
      bool left = n.find(".psll") != std::string::npos;
      auto *vt = cast<FixedVectorType>(CB.getType()); unsigned ew = width(vt->getElementType()), ne = vt->getNumElements(); Bits c = toBits(a[1]); uint64_t k = 0; for (unsigned i = 0; i < 64 && i < c.size(); i++) { Node q = simp(s, c[i]); if (q > 1) unk("data-dependent vector shift"); k |= (uint64_t)q << i; }
      if (a[0].k == VAgg && left && k < 48) { auto v = lanes(a[0], ne, ew); for (auto &q : v) q = binopS(s, Instruction::Shl, q, mkC(k, ew), ew, &CB); res = mkLanes(v); return true; }
      Bits x = toBits(a[0]), r(x.size(), 0); if (k < ew) for (unsigned e = 0; e < ne; e++) for (unsigned i = 0; i < ew; i++) { if (left) { if (i >= k) r[e * ew + i] = x[e * ew + i - k]; } else if (i + k < ew) r[e * ew + i] = x[e * ew + i + k]; } res = mkB(r); return true; }
    case Intrinsic::x86_avx2_pshuf_b: case Intrinsic::x86_avx512_pshuf_b_512: { // within each 128-bit lane, byte i selects a byte of the first operand
      Bits t = toBits(a[0]), x = toBits(a[1]), r; for (unsigned i = 0; i < x.size() / 8; i++) { const Node *q = &x[i * 8]; unsigned base = i / 16 * 16; for (unsigned b = 0; b < 8; b++) { std::vector<Node> m; for (unsigned k = 0; k < 16; k++) m.push_back(t[(base + k) * 8 + b]); for (unsigned st = 0; st < 4; st++) { std::vector<Node> z; for (size_t k = 0; k < m.size(); k += 2) z.push_back(B.ite(q[st], m[k + 1], m[k])); m.swap(z); } r.push_back(B.And(m[0], B.Not(q[7]))); } }
      res = mkB(r); return true; }
    case Intrinsic::x86_sse2_psad_bw: case Intrinsic::x86_avx2_psad_bw: case Intrinsic::x86_avx512_psad_bw_512: { // sum of absolute byte differences per 64 bits
      Bits x = toBits(a[0]), y = toBits(a[1]), r; for (unsigned g = 0; g < x.size() / 64; g++) { Bits acc(64, 0); for (unsigned k = 0; k < 8; k++) { Bits p(x.begin() + g * 64 + k * 8, x.begin() + g * 64 + k * 8 + 8), q(y.begin() + g * 64 + k * 8, y.begin() + g * 64 + k * 8 + 8), np(8), nq(8); for (int i = 0; i < 8; i++) np[i] = B.Not(p[i]), nq[i] = B.Not(q[i]); Node ge; Bits d = ripple(p, nq, 1, &ge), e = ripple(q, np, 1), m(64, 0); for (int i = 0; i < 8; i++) m[i] = B.ite(ge, d[i], e[i]); acc = ripple(acc, m, 0); } r.insert(r.end(), acc.begin(), acc.end()); }
      res = mkB(r); return true; }
    case Intrinsic::x86_avx512_pternlog_d_512: case Intrinsic::x86_avx512_pternlog_q_512: case Intrinsic::x86_avx512_pternlog_d_256: case Intrinsic::x86_avx512_pternlog_q_256: { Bits x = toBits(a[0]), y = toBits(a[1]), z = toBits(a[2]), r; uint64_t im = uval(a[3]); for (unsigned i = 0; i < x.size(); i++) { auto two = [&](unsigned k) { return B.ite(z[i], im >> (k + 1) & 1, im >> k & 1); }; r.push_back(B.ite(x[i], B.ite(y[i], two(6), two(4)), B.ite(y[i], two(2), two(0)))); } res = mkB(r); return true; }
    case Intrinsic::vector_reduce_or: case Intrinsic::vector_reduce_and: case Intrinsic::vector_reduce_add: break;
    default: break;
    }
    unk("intrinsic " + n);
  }
  if (C->ext && C->ext(*this, s, &CB, f, n, a, res)) return true;
  if (extCall && extCall(*this, &CB, n, a, res)) return true;
  auto raise = [&](const std::string &why) { s.outcomeWhy = why; s.throwSite = &CB;
    if (auto *inv = dyn_cast<InvokeInst>(&CB)) { branch(s, inv->getUnwindDest()); s.outcomeWhy = "unwound"; s.notes.push_back(why); return true; }
    s.notes.push_back(why); unwind(s); if (!s.st.empty()) s.outcomeWhy = "unwound"; else s.outcomeWhy = why; return true; };
  if (n == "_Znwm" || n == "_Znam" || n == "malloc") {
    if (s.allocBudget == 100) { ForkEx fk; fk.lin = false; Alt ok, bad; ok.budget = 101; ok.what = "allocation succeeds"; bad.budget = 0; bad.what = "allocation fails"; fk.alts = {ok, bad}; throw fk; }
    if (s.allocBudget == 0) { s.allocBudget = -1; return raise("std::bad_alloc"); }
    if (s.allocBudget == 101) s.allocBudget = 102;   // re-armed after the storage exists
    if (a[0].k != VLin) unk("allocation of data-dependent size");
    Lin sz = a[0].l; if (!sz.isConst() && !decideGE0(s, sz)) unk("negative allocation size");
    Lin ne = sz; i64 E = elemBytes; bool words = true; for (auto &p : sz.t) if (p.second % E) words = false; if (sz.c % E) words = false; if (sz.isConst() && sz.c < 0) { return raise("std::bad_alloc"); }
    if (words) { ne.c /= E; for (auto &p : ne.t) p.second /= E; } else if (!sz.isConst()) { floorDiv(s, sz, E); unk("odd allocation size"); }
    int id = words ? newObj(s, "heap#" + std::to_string(s.objs.size()), true, E, ne, true) : newObj(s, "heap#" + std::to_string(s.objs.size()), false, 1, sz); mut(s, id).heap = true; mut(s, id).align = 16 % 64; res = mkP(id, Lin(0)); if (s.allocBudget == 102) s.allocBudget = 100; return true; }
  if (n == "_ZdlPv" || n == "_ZdlPvm" || n == "_ZdaPv" || n == "_ZdaPvm" || n == "free") {
    if (a[0].k == VPtr && a[0].obj == 0) return true; if (a[0].k != VPtr) unk("release of unknown pointer");
    if (!obj(s, a[0].obj).alive) { report(s, "double-free", curI, "storage " + obj(s, a[0].obj).name + " released twice"); return true; } if (!obj(s, a[0].obj).heap || a[0].l != Lin(0)) { report(s, "bad-free", curI, "release of storage not obtained from the allocator"); return true; }
    if (n == "_ZdlPvm" && a.size() > 1 && a[1].k == VLin) { const Obj &o = obj(s, a[0].obj); Lin tot = o.words ? o.len * o.elem : o.len; if (!decideEQ0(s, tot - a[1].l)) report(s, "bad-free", curI, "storage released with size " + str(a[1].l) + " but allocated with " + str(tot)); }
    mut(s, a[0].obj).alive = false; return true; }
  if (n == "memmove" || n == "memcpy") { memCopy(s, a[0], a[1], a[2]); res = a[0]; return true; }
  if (n == "memset") { memFill(s, a[0], a[1], a[2]); res = a[0]; return true; }
  if (n == "memcmp" || n == "bcmp") {
    if (a[2].k != VLin) unk("memcmp size"); Lin len = a[2].l; if (len.isConst() && len.c == 0) { res = mkC(0, 32); return true; }
    if (!len.isConst() && decideEQ0(s, len)) { res = mkC(0, 32); return true; }
    if (a[0].k != VPtr || a[1].k != VPtr) unk("memcmp pointer"); 
    bool b0 = bounds(s, a[0].obj, a[0].l, len, false, "compare operand"), b1 = bounds(s, a[1].obj, a[1].l, len, false, "compare operand"); if (!b0 || !b1) { s.stuck = true; return true; }
    if (len.isConst() && len.c <= 1024) { Bits x = readBits(s, a[0].obj, a[0].l, len.c, false), y = readBits(s, a[1].obj, a[1].l, len.c, false); std::vector<Node> c; for (size_t i = 0; i < x.size(); i++) c.push_back(B.Xnor(x[i], y[i])); res = mkC(decideAll(s, c) ? 0 : 1, 32); return true; }
    const Obj &oa = obj(s, a[0].obj), &ob = obj(s, a[1].obj); if (!oa.words || !ob.words || oa.elem != ob.elem) unk("symbolic memcmp");
    i64 E = oa.elem; Lin ne = floorDiv(s, len, E), x = floorDiv(s, a[0].l, E), y = floorDiv(s, a[1].l, E); if (ne * E != len) unk("unaligned memcmp");
    // both operands must be one pristine template each
    std::vector<Seg> p = cutSegs(s, a[0].obj, x, x + ne), q = cutSegs(s, a[1].obj, y, y + ne); if (p.size() != 1 || q.size() != 1) unk("memcmp of rewritten storage");
    std::string key = "memcmp" + std::to_string(a[0].obj) + str(a[0].l) + std::to_string(a[1].obj) + str(a[1].l) + str(len);
    for (auto &nn : s.notes) { if (nn == key + "=") { res = mkC(0, 32); return true; } if (nn == key + "!") { res = mkC(1, 32); return true; } }
    // split: all equal, or the first difference at element e, bit i
    TmplP tp = p[0].t, tq = q[0].t; ForkEx fk; fk.lin = true; 
    // encoded through direct state alternatives
    Bits bp = tmplAt(tp, Lin::var(J) + x), bq = tmplAt(tq, Lin::var(J) + y);
    // all equal
    { State t = s; t.notes.push_back(key + "="); t.path.push_back({curI, "operands equal"}); FactSeg fs; uint32_t v; bool ps;
      bool ok = true; Bits np(bp.size(), ~0u); int region = -1; Lin base; 
      for (size_t i = 0; i < bq.size(); i++) { Node l = bq[i], r = bp[i]; if (!B.isLit(l, v, ps) || !ps || B.vars[v].kind != VD_ATOM || B.vars[v].idx.coef(J) != 1) { ok = false; break; } if (region == -1) { region = B.vars[v].region; base = substVar(B.vars[v].idx, J, Lin(0)); } if (B.vars[v].region != region || B.vars[v].bit != (int)i || substVar(B.vars[v].idx, J, Lin(0)) != base) { ok = false; break; } std::unordered_map<Node, Node> mm; np[i] = substNode(r, J, Lin::var(J) - base, mm); }
      if (!ok) unk("memcmp operand shape"); fs.region = region; fs.lo = base; fs.hi = base + ne; fs.v = np; t.fs.push_back(fs); t.linForks++; work.push_back(t); }
    for (size_t i = 0; i < bp.size(); i++) { State t = s; t.notes.push_back(key + "!"); t.path.push_back({curI, "operands differ in bit " + std::to_string(i) + " of some word"}); int e = newParam("e"); t.linForks++; if (!addGe(t, ne - Lin(1) - Lin::var(e))) continue; std::unordered_map<Node, Node> m; Node d = B.Xor(substNode(bp[i], J, Lin::var(e), m), substNode(bq[i], J, Lin::var(e), m)); if (!addNode(t, d, true)) continue; work.push_back(t); }
    throw ForkEx{{}, true}; }
  if (n == "__cxa_guard_acquire") { s.guards++; res = mkC(1, 32); return true; }
  if (n == "__cxa_guard_release") { store(s, a[0], mkC(1, 8), Type::getInt8Ty(M.getContext())); s.guards--; return true; }
  if (n == "__cxa_guard_abort") { s.guards--; return true; }
  if (n == "strlen") {
    if (a[0].k != VPtr) unk("length of a string at an unknown address");
    for (i64 k = 0; k < 4096; k++) { if (!bounds(s, a[0].obj, a[0].l + Lin(k), Lin(1), false, "string")) { s.stuck = true; return true; } std::vector<Node> z; for (Node x : readBits(s, a[0].obj, a[0].l + Lin(k), 1, false)) z.push_back(B.Not(x)); if (decideAll(s, z)) { res = mkC(k, 64); return true; } }
    unk("string without an end in sight"); }
  if (n == "__cxa_throw") return raise("throw");
  if (n == "__cxa_rethrow") return raise("rethrow");
  if (n == "__cxa_allocate_exception") { int id = newObj(s, "exception", false, 1, a[0].l); res = mkP(id, Lin(0)); return true; }
  if (n == "__cxa_free_exception" || n == "__cxa_end_catch" || n == "_ZNSt9exceptionD2Ev" || n == "_ZNSt9bad_allocD1Ev") return true;
  if (n == "__cxa_begin_catch" || n == "__cxa_get_exception_ptr") { res = a[0]; return true; }
  if (n == "_ZNSt12out_of_rangeC1EPKc" || n == "_ZNSt12length_errorC1EPKc" || n == "_ZNSt11logic_errorC1EPKc" || n == "_ZNSt13runtime_errorC1EPKc" || n == "_ZNSt16invalid_argumentC1EPKc") { s.notes.push_back("construct " + demangle(n)); return true; }
  if (n == "_ZNSt12out_of_rangeD1Ev") return true;
  if (n.find("_ZSt20__throw_length_error") == 0) return raise("std::length_error"); if (n.find("_ZSt24__throw_out_of_range_fmt") == 0) return raise("std::out_of_range"); if (n.find("_ZSt17__throw_bad_alloc") == 0 || n.find("_ZSt28__throw_bad_array_new_length") == 0) return raise("std::bad_alloc"); if (n.find("_ZSt19__throw_logic_error") == 0) return raise("std::logic_error");
  if (n == "__assert_fail" || n == "_ZSt21__glibcxx_assert_failPKciS0_S0_") { std::string msg = "assertion failed"; report(s, "assert", &CB, msg); s.stuck = true; return true; }
  if (n == "__clang_call_terminate" || n == "_ZSt9terminatev" || n == "abort") { s.outcome = 3; s.outcomeWhy = n; s.throwSite = &CB; return true; }
  if (n == "ceilf" || n == "ceil") { if (a[0].k == VFloat) { res = a[0]; res.f = std::ceil(a[0].f); } else res = mkTop(w, "floating point"); return true; }
  return false;
}
// ---------------------------------------------------------------- loops
bool Engine::headerArrival(State &s, const BasicBlock *h) {
  if (!C->symbolic) { LoopHist &lh = top(s).lh[h]; if (++lh.arrivals > 100000) unk("loop bound"); return true; }
  LoopHist lh = top(s).lh[h]; lh.arrivals++;
  if (lh.generic) {
    if (++lh.phase % lh.period) { top(s).lh[h] = lh; return true; }
    std::string why; if (matchesGeneric(s, *lh.generic, h, why)) { cs.subsumed++; return false; }
    unk("loop not summarised at " + loc(&*s.st.back()->it) + ": " + why);
  }
  int peel = 0; { auto m = minArr.find(h); if (m != minArr.end()) peel = m->second; }
  if (lh.arrivals <= peel) { top(s).lh[h] = lh; return true; }
  lh.forks.push_back(s.linForks); { State c = s; lh.snap.push_back(std::make_shared<State>(std::move(c))); }
  lh.old.push_back(lh.snap.back()); lh.oldForks.push_back(s.linForks); if (lh.old.size() > 5) { lh.old.erase(lh.old.begin()); lh.oldForks.erase(lh.oldForks.begin()); }
  // a decision in every second iteration only: generalise pairs of iterations
  if (lh.arrivals > peel + 10 && lh.old.size() == 5) { auto &f = lh.oldForks; if (f[4] > f[2] && f[2] > f[0] && ((f[4] == f[3] && f[2] == f[1]) || (f[3] == f[2] && f[1] == f[0]))) {
    LoopHist l2 = lh; l2.snap = {lh.old[0], lh.old[2], lh.old[4]}; l2.period = 2; l2.phase = 0; if (accelerate(s, h, l2)) { l2.old.clear(); top(s).lh[h] = l2; return true; } } }
  if (lh.snap.size() > 3) { lh.snap.erase(lh.snap.begin()); lh.forks.erase(lh.forks.begin()); }
  // a loop that runs on for long without a decision (its bound exceeds a known minimum): record the conditions it
  // consults, which then generalise like decisions do
  if (lh.arrivals == peel + 24 && lh.forks.size() == 3 && lh.forks[2] == lh.forks[0]) s.logProved = true;
  if (lh.arrivals > peel + 70 || (lh.arrivals > peel + 40 && lh.snap.size() == 3 && lh.forks[2] > lh.forks[0])) { if (getenv("VPA_DEBUG")) { fprintf(stderr, "PEEL %s\n", C->desc.c_str()); for (auto &q : s.path.tail(80)) fprintf(stderr, "   %s %s\n", q.at ? loc(q.at).c_str() : "?", q.what.c_str()); } unk("loop not summarised (peeling limit)"); }
  bool ok = false;
  if (lh.arrivals == peel + 28 && s.logProved && lh.snap[2]->ge.size() > lh.snap[1]->ge.size() && lh.forks[2] == lh.forks[0]) { s.logProved = false; ok = accelerate(s, h, lh); if (ok) { top(s).lh[h] = lh; return true; } }
  if (lh.snap.size() == 3 && lh.forks[2] > lh.forks[1] && lh.forks[1] > lh.forks[0]) ok = accelerate(s, h, lh);
  top(s).lh[h] = lh; (void)ok;
  return true;
}
namespace { struct NoGen { std::string why; }; }
struct Gen { // generalises pairs of abstract values along a loop
  Engine &E; int k;
  Node node(Node n1, Node n2) {
    if (n1 == n2) return n2; if (n2 < 2 || n1 < 2) throw NoGen{"bit changes constant"};
    std::vector<uint32_t> s1, s2; B.support(n1, s1); B.support(n2, s2); std::map<uint32_t, Node> fw; std::map<uint32_t, Node> bk; std::set<uint32_t> used;
    for (uint32_t v : s2) {
      VarDesc d2 = B.vars[v]; if (d2.kind == VD_FUN) { bool hit = false; for (uint32_t u : s1) { VarDesc d1 = B.vars[u]; if (used.count(u) || d1.kind != VD_FUN || d1.fn != d2.fn || d1.args.size() != d2.args.size()) continue; try { std::vector<Node> ga, ba; for (size_t i = 0; i < d1.args.size(); i++) ga.push_back(node(d1.args[i], d2.args[i])); fw[v] = B.fun(d2.fn, ga); bk[v] = B.mk(u, 0, 1); used.insert(u); hit = true; break; } catch (NoGen &) {} } if (!hit) throw NoGen{"operator application changes"}; continue; }
      if (d2.kind != VD_ATOM) { fw[v] = bk[v] = B.mk(v, 0, 1); continue; }
      int cand = -1; i64 bd = 0; for (uint32_t u : s1) { VarDesc d1 = B.vars[u]; if (used.count(u) || d1.kind != VD_ATOM || d1.region != d2.region || d1.bit != d2.bit) continue; Lin df = d2.idx - d1.idx; if (!df.isConst()) continue; if (cand < 0) { cand = u; bd = df.c; } }
      if (cand < 0) throw NoGen{"no matching atom"}; used.insert(cand); fw[v] = B.atom(d2.region, d2.idx + Lin::var(k, bd), d2.bit); bk[v] = B.mk(cand, 0, 1);
    }
    std::unordered_map<Node, Node> m1, m2; Node chk = B.rename(n2, [&](uint32_t v) { return bk.at(v); }, m1); if (chk != n1) throw NoGen{"bit shape changes"};
    return B.rename(n2, [&](uint32_t v) { return fw.at(v); }, m2);
  }
  Val val(const Val &v0, const Val &v1, const Val &v2) {
    if (v2.k != v1.k) throw NoGen{"value kind changes"}; 
    if (v2.k == VNone) return v2; if (v2.k == VFn) { if (v1.fn != v2.fn) throw NoGen{"function changes"}; return v2; }
    if (v2.k == VTop) return v2;
    if (v2.k == VLin || v2.k == VPtr) { if (v2.k == VPtr && v1.obj != v2.obj) throw NoGen{"object changes"}; Lin d = v2.l - v1.l; if (v0.k == v2.k && (v1.l - v0.l) != d) throw NoGen{"non-linear recurrence"}; if (d.isConst() && d.c == 0) return v2; if (!d.isConst()) throw NoGen{"symbolic stride"}; Val r = v2; r.l = v2.l + Lin::var(k, d.c); return r; }
    if (v2.k == VBits) { Bits r(v2.b->size()); if (v1.b->size() != r.size()) throw NoGen{"width"}; for (size_t i = 0; i < r.size(); i++) r[i] = node((*v1.b)[i], (*v2.b)[i]); Val x = v2; x.b = std::make_shared<Bits>(r); return x; }
    if (v2.k == VAgg) { auto a = std::make_shared<std::vector<Val>>(); for (size_t i = 0; i < v2.agg->size(); i++) a->push_back(val(v0.k == VAgg ? (*v0.agg)[i] : Val(), (*v1.agg)[i], (*v2.agg)[i])); Val r = v2; r.agg = a; return r; }
    throw NoGen{"value kind"};
  }
};
// template in J for a value that is n1 when J==i1 and n2 when J==i2 (i2-i1 = d)
static Node tmplNode(Engine &E, Node n1, Node n2, const Lin &i2, i64 d) {
  if (n1 == n2) return n2; Gen g{E, 0};
  int kk = newParam("k?"); g.k = kk; Node gk = g.node(n1, n2); // indices a2 + kk*gamma
  // a2 + gamma*t with t = (J - i2)/d
  std::unordered_map<Node, Node> m;
  std::function<Node(Node)> conv = [&](Node n) -> Node { std::unordered_map<Node, Node> mm; return B.rename(n, [&](uint32_t v) -> Node { VarDesc x = B.vars[v]; if (x.kind == VD_FUN) { std::vector<Node> a; for (Node q : x.args) a.push_back(conv(q)); return B.fun(x.fn, a); } if (x.kind != VD_ATOM) return B.mk(v, 0, 1); i64 c = x.idx.coef(kk); if (!c) return B.mk(v, 0, 1); if (c % d) throw NoGen{"stride mismatch"}; return B.atom(x.region, substVar(x.idx, kk, (Lin::var(J) - i2) * 0) + (Lin::var(J) - i2) * (c / d), x.bit); }, mm); };
  return conv(gk);
}
static Lin genLin(const Lin &a, const Lin &b, int k) { Lin d = b - a; if (!d.isConst()) throw NoGen{"symbolic stride"}; return b + Lin::var(k, d.c); }
bool Engine::accelerate(State &s, const BasicBlock *h, LoopHist &lh) {
  const State &s0 = *lh.snap[0], &s1 = *lh.snap[1], &s2 = *lh.snap[2];
  if (s0.substs.size() != s2.substs.size()) return false;
  int k = newParam("k"); kHead[k] = h; Gen G{*this, k}; State g = s2;
  try {
    // registers: phis of this header
    { auto f = std::make_shared<Frame>(*g.st.back()); const Frame &f0 = *s0.st.back(), &f1 = *s1.st.back(), &f2 = *s2.st.back();
      for (auto &I : *h) { auto *p = dyn_cast<PHINode>(&I); if (!p) break; int r = f->fi->num.at(p); f->r[r] = G.val(f0.r[r], f1.r[r], f2.r[r]); }
      g.st.back() = f; }
    if (s0.st.size() != s2.st.size()) throw NoGen{"stack depth"};
    // scalar objects
    for (size_t o = 1; o < s0.objs.size(); o++) {
      const Obj &a = *s0.objs[o], &b = *s1.objs[o], &c = *s2.objs[o]; if (s1.objs[o] == s2.objs[o] && s0.objs[o] == s1.objs[o]) continue;
      if (a.alive != c.alive || b.alive != c.alive) throw NoGen{"object lifetime"}; if (c.words || !c.alive) continue;
      Obj n = c; for (auto &cell : n.cells) { auto i0 = a.cells.find(cell.first), i1 = b.cells.find(cell.first); if (i1 == b.cells.end() || i1->second.sz != cell.second.sz) throw NoGen{"scalar layout changes"}; cell.second.v = G.val(i0 != a.cells.end() && i0->second.sz == cell.second.sz ? i0->second.v : Val(), i1->second.v, cell.second.v); }
      g.objs[o] = std::make_shared<Obj>(n);
    }
    for (size_t o = s0.objs.size(); o < s2.objs.size(); o++) if (s2.objs[o]->alive && (s2.objs[o]->heap || s2.objs[o]->words)) throw NoGen{"allocation inside the loop"};
    // word arrays: generalise the writes of the last iteration
    std::vector<LogW> w1, w2; auto keep = [&](const LogW &l) { return s2.objs[l.obj]->alive && l.obj < (int)s0.objs.size(); };
    for (size_t i = s0.wlog.size(); i < s1.wlog.size(); i++) if (keep(s1.wlog[i])) w1.push_back(s1.wlog[i]); for (size_t i = s1.wlog.size(); i < s2.wlog.size(); i++) if (keep(s2.wlog[i])) w2.push_back(s2.wlog[i]);
    if (w1.size() != w2.size()) throw NoGen{"different number of writes per iteration"};
    // a later write of the same element in one iteration wins
    auto dedup = [&](std::vector<LogW> &w) { std::vector<LogW> r; for (size_t i = 0; i < w.size(); i++) { bool later = false; for (size_t j = i + 1; j < w.size(); j++) if (w[j].obj == w[i].obj && (w[j].idx - w[i].idx) == Lin(0)) later = true; if (!later) r.push_back(w[i]); } w = r; };
    dedup(w1); dedup(w2); if (w1.size() != w2.size()) throw NoGen{"different number of writes per iteration"};
    struct GW { int obj; Lin idx; i64 d; TmplP t; const Instruction *src; std::vector<std::pair<Lin, std::pair<TmplP, const Instruction *>>> tails; }; std::vector<GW> gw;
    for (size_t i = 0; i < w2.size(); i++) {
      if (w1[i].obj != w2[i].obj || w1[i].range || w2[i].range) throw NoGen{"block write inside the loop"}; Lin d = w2[i].idx - w1[i].idx; if (!d.isConst()) throw NoGen{"symbolic write stride"};
      if (d.c == 0) { if (w1[i].t->b != w2[i].t->b) throw NoGen{"repeated write of changing value"}; continue; }
      auto t = std::make_shared<Tmpl>(); t->hasJ = true; for (size_t b = 0; b < w2[i].t->b.size(); b++) t->b.push_back(tmplNode(*this, w1[i].t->b[b], w2[i].t->b[b], w2[i].idx, d.c)); gw.push_back({w2[i].obj, w2[i].idx, d.c, t, w2[i].src});
    }
    // unit stride with look-ahead writes: element idx+j written now is rewritten j iterations later, so only the
    // nearest write is final and the look-ahead elements survive just beyond the last one
    for (size_t i = 0; i < gw.size(); i++) { if (std::abs(gw[i].d) != 1) continue; i64 sg = gw[i].d; bool first = true; std::map<i64, size_t> ahead;
      for (size_t j = 0; j < gw.size(); j++) if (j != i && gw[j].obj == gw[i].obj && gw[j].d == gw[i].d) { Lin df = (gw[j].idx - gw[i].idx) * sg; if (!df.isConst()) continue; if (df.c <= 0) { first = false; break; } ahead[df.c] = j; }
      if (!first || ahead.empty()) continue; i64 need = 1; std::vector<size_t> rm; for (auto &p : ahead) { if (p.first != need++) break; gw[i].tails.push_back({gw[p.second].idx, {gw[p.second].t, gw[p.second].src}}); rm.push_back(p.second); }
      if (rm.size() != ahead.size()) throw NoGen{"look-ahead writes leave gaps"}; std::sort(rm.rbegin(), rm.rend()); for (size_t r : rm) gw.erase(gw.begin() + r); i = (size_t)-1; if (gw.empty()) break; bool again = false; for (auto &g2 : gw) if (g2.tails.empty()) again = true; if (!again) break; 
    }
    std::vector<char> done(gw.size(), 0);
    for (size_t i = 0; i < gw.size(); i++) { if (done[i]) continue;
      // group of writes with the same object and stride
      i64 sd = std::abs(gw[i].d); std::vector<size_t> grp; for (size_t j = i; j < gw.size(); j++) if (!done[j] && gw[j].obj == gw[i].obj && gw[j].d == gw[i].d && (gw[j].idx - gw[i].idx).isConst() && std::abs((gw[j].idx - gw[i].idx).c) < sd) grp.push_back(j);
      if ((i64)grp.size() != sd) throw NoGen{"strided write leaves gaps"}; Lin base = gw[i].idx; for (size_t j : grp) { done[j] = 1; Lin df = gw[j].idx - base; if (df.c < 0) base = gw[j].idx; if (gw[j].t->b != gw[i].t->b) throw NoGen{"strided write with different contents"}; }
      Lin lo, hi; if (gw[i].d > 0) { lo = base + Lin(sd); hi = lo + Lin::var(k, sd); } else { hi = base; lo = base - Lin::var(k, sd); }
      // the generic state must at least satisfy the generalised facts before overlaying; add them below first
      gw[i].idx = base; 
      g.wlog.push_back({gw[i].obj, lo, gw[i].t, gw[i].src, true}); gw[i].t = gw[i].t; 
      // stash
      g.wlog.back().idx = lo; g.path.push_back({gw[i].src, "@overlay"}); 
      (void)hi;
    }
    // facts
    size_t n0 = s0.ge.size(), n1 = s1.ge.size(), n2 = s2.ge.size(); std::vector<Lin> gf;
    if (n1 - n0 == n2 - n1) { for (size_t i = 0; i < n2 - n1; i++) { Lin d = s2.ge[n1 + i] - s1.ge[n0 + i]; if (!d.isConst()) { g.inexact = true; continue; } if (d.c) gf.push_back(s2.ge[n1 + i] + Lin::var(k, d.c)); } } else g.inexact = true;
    for (auto &f : gf) g.ge.push_back(f);
    // bit facts
    std::vector<LogA> a1(s1.alog.begin() + s0.alog.size(), s1.alog.end()), a2(s2.alog.begin() + s1.alog.size(), s2.alog.end());
    if (a1.size() != a2.size()) throw NoGen{"different facts per iteration"};
    struct FA { int region; int bit; Lin idx; i64 d; Node t; }; std::vector<FA> fa;
    for (size_t i = 0; i < a2.size(); i++) { VarDesc x1 = B.vars[a1[i].var], x2 = B.vars[a2[i].var]; if (x1.kind != VD_ATOM || x2.kind != VD_ATOM || x1.region != x2.region || x1.bit != x2.bit) throw NoGen{"fact shape"}; Lin d = x2.idx - x1.idx; if (!d.isConst() || !d.c) throw NoGen{"fact stride"}; fa.push_back({x2.region, x2.bit, x2.idx, d.c, tmplNode(*this, a1[i].val, a2[i].val, x2.idx, d.c)}); }
    if (s2.resid.size() != s0.resid.size()) throw NoGen{"residual facts"};
    std::vector<char> fd(fa.size(), 0);
    for (size_t i = 0; i < fa.size(); i++) { if (fd[i]) continue; i64 sd = std::abs(fa[i].d); std::map<i64, std::map<int, Node>> byoff; i64 mn = 0; for (size_t j = i; j < fa.size(); j++) if (!fd[j] && fa[j].region == fa[i].region && fa[j].d == fa[i].d && (fa[j].idx - fa[i].idx).isConst()) { i64 o = (fa[j].idx - fa[i].idx).c; byoff[o][fa[j].bit] = fa[j].t; mn = std::min(mn, o); fd[j] = 1; }
      if ((i64)byoff.size() != sd) throw NoGen{"strided facts leave gaps"}; for (auto &p : byoff) if (p.second != byoff.begin()->second) throw NoGen{"strided facts differ"};
      FactSeg f; f.region = fa[i].region; Lin base = fa[i].idx + Lin(mn); if (fa[i].d > 0) { f.lo = base + Lin(sd); f.hi = f.lo + Lin::var(k, sd); } else { f.hi = base; f.lo = base - Lin::var(k, sd); }
      int nb = 0; for (auto &v : B.vars) if (v.kind == VD_ATOM && v.region == f.region) nb = std::max(nb, v.bit + 1); f.v.assign(nb, ~0u); for (auto &p : byoff.begin()->second) f.v[p.first] = p.second; g.fs.push_back(f); }
    // overlays
    for (size_t i = 0; i < gw.size(); i++) { bool first = true; for (size_t j = 0; j < i; j++) if (gw[j].obj == gw[i].obj && gw[j].d == gw[i].d && (gw[j].idx - gw[i].idx).isConst() && std::abs((gw[j].idx - gw[i].idx).c) < std::abs(gw[i].d)) first = false; if (!first) continue;
      i64 sd = std::abs(gw[i].d); Lin base = gw[i].idx, lo, hi; if (gw[i].d > 0) { lo = base + Lin(sd); hi = lo + Lin::var(k, sd); } else { hi = base; lo = base - Lin::var(k, sd); }
      Obj n = *g.objs[gw[i].obj]; 
      std::vector<Seg> pcs; Lin olo = lo, ohi = hi; pcs.push_back({lo, hi, gw[i].t, gw[i].src});
      for (auto &t : gw[i].tails) { if (gw[i].d > 0) { pcs.push_back({ohi, ohi + Lin(1), t.second.first, t.second.second}); ohi = ohi + Lin(1); } else { olo = olo - Lin(1); pcs.insert(pcs.begin(), {olo, olo + Lin(1), t.second.first, t.second.second}); } }
      try { overlayList(g, n, olo, ohi, pcs); } catch (ForkEx &fk) { if (getenv("VPA_DEBUG")) { fprintf(stderr, "overlay [%s,%s) len %s; undecided %s; facts:", str(lo).c_str(), str(hi).c_str(), str(n.len).c_str(), fk.alts.empty() ? "" : fk.alts[0].what.c_str()); for (auto &q : g.ge) fprintf(stderr, " %s>=0;", str(q).c_str()); fprintf(stderr, " segs:"); for (auto &x : n.segs) fprintf(stderr, " [%s,%s)", str(x.lo).c_str(), str(x.hi).c_str()); fprintf(stderr, "\n"); } throw NoGen{"position of the summarised write is undecided"}; }
      g.objs[gw[i].obj] = std::make_shared<Obj>(n); }
    g.path.push_back({curI, "loop summarised after " + std::to_string(lh.arrivals) + " iterations, " + gLV[k].name + " more"});
  } catch (NoGen &e) { unknownWhy.insert("loop at " + loc(&*s.st.back()->it) + ": " + e.why); return false; }
  for (auto &f : s2.ge) (void)f;
  lh.snap.clear(); lh.forks.clear(); lh.k = k; lh.generic = std::make_shared<State>(g); cs.accel++;
  g.linForks++; s = g; return true;
}
static bool valEq(Engine &E, State &s, const Val &a, const Val &b) {
  if (a.k != b.k) return false; switch (a.k) { case VNone: case VTop: return true; case VFn: return a.fn == b.fn; case VFloat: return a.f == b.f; case VLin: return E.proveEQ0(s, a.l - b.l); case VPtr: return a.obj == b.obj && E.proveEQ0(s, a.l - b.l);
  case VBits: if (a.b->size() != b.b->size()) return false; for (size_t i = 0; i < a.b->size(); i++) if (!E.nodeEq(s, (*a.b)[i], (*b.b)[i])) return false; return true;
  case VAgg: if (a.agg->size() != b.agg->size()) return false; for (size_t i = 0; i < a.agg->size(); i++) if (!valEq(E, s, (*a.agg)[i], (*b.agg)[i])) return false; return true; }
  return false;
}
bool Engine::matchesGeneric(State &s, const State &g0, const BasicBlock *h, std::string &why) {
  int k = top(s).lh[h].k; State g = g0; if (s.substs.size() != g.substs.size()) { why = "parameter re-split inside the loop"; return false; }
  substState(g, k, Lin::var(k) + Lin(1), false);
  const Frame &fs = *s.st.back(), &fg = *g.st.back();
  for (auto &I : *h) { auto *p = dyn_cast<PHINode>(&I); if (!p) break; int r = fs.fi->num.at(p); if (!valEq(*this, s, fs.r[r], fg.r[r])) { why = "induction value differs"; return false; } }
  for (size_t o = 1; o < g.objs.size(); o++) {
    const Obj &a = *s.objs[o], &b = *g.objs[o]; if (!b.alive) continue; if (!a.alive) { why = "object released"; return false; }
    if (!b.words) { for (auto &c : b.cells) { auto it = a.cells.find(c.first); if (it == a.cells.end() || it->second.sz != c.second.sz || !valEq(*this, s, it->second.v, c.second.v)) { why = "scalar state of " + b.name + " differs"; return false; } } continue; }
    Mismatch mm; try { if (!segsEqual(s, a.segs, b.segs, Lin(0), b.len, b.elem * 8, &mm)) { why = "array contents of " + b.name + " differ at " + str(mm.lo) + " bit " + std::to_string(mm.bit) + ": " + strNode(mm.got) + " vs " + strNode(mm.want); return false; } } catch (ForkEx &) { why = "array comparison undecided"; return false; } catch (Unknown &u) { why = u.why; return false; }
  }
  for (auto &f : g.ge) if (!proveGE0(s, f)) { why = "fact not inductive: " + str(f); return false; }
  for (auto &f : g.fs) { // already known part plus the elements added by this iteration
    bool ok = false; why = "bit fact not inductive";
    for (auto &q : s.fs) { if (q.region != f.region || q.v != f.v) continue; Lin dl = q.lo - f.lo, dh = f.hi - q.hi; if (!dl.isConst() || !dh.isConst()) { if (proveEQ0(s, dl) && proveEQ0(s, dh)) { ok = true; break; } continue; } if (dl.c < 0 || dh.c < 0 || dl.c + dh.c > 8) continue;
      std::vector<Lin> extra; for (i64 i = 0; i < dl.c; i++) extra.push_back(f.lo + Lin(i)); for (i64 i = 1; i <= dh.c; i++) extra.push_back(f.hi - Lin(i)); bool all = true;
      for (auto &e : extra) for (size_t b = 0; b < f.v.size(); b++) if (f.v[b] != ~0u) { std::unordered_map<Node, Node> m; Node want = substNode(f.v[b], J, e, m); if (!nodeEq(s, B.atom(f.region, e, b), want)) { all = false; why = "bit fact not inductive at " + str(e) + ": " + strNode(simp(s, B.atom(f.region, e, b))) + " vs " + strNode(want); } }
      if (all) { ok = true; break; } }
    if (!ok) return false; }
  return true;
}
// ---------------------------------------------------------------- driver
void Engine::runCase(Case &c) {
  minArr.clear(); for (int tries = 0;; tries++) { kHead.clear(); try { runOnce(c); return; } catch (Retry &r) { if (tries > 6) { cs.unknown++; unknownWhy.insert("residue of a summarised loop counter"); return; } minArr[r.h] = 66; }
    catch (Unknown &u) { cs.unknown++; unknownWhy.insert(u.why + " in " + c.fn); work.clear(); inCheck = false; return; } }
}
void Engine::runOnce(Case &c) {
  C = &c; hitLast = false; B.reset(); regionNames.clear(); regionUninit.clear(); work.clear(); elemBytes = c.W / 8;
  extern std::function<std::string(int)> gRegionName; gRegionName = [this](int r) { return r < (int)regionNames.size() ? regionNames[r] : "R?"; };
  State s0 = newState(); const Function *f = M.getFunction(c.fn); if (!f) throw std::runtime_error("entry point " + c.fn + " missing from the IR");
  auto fr = std::make_shared<Frame>(); fr->fi = info(f); fr->r.resize(fr->fi->nregs); fr->bb = &f->getEntryBlock(); fr->it = fr->bb->begin(); s0.st.push_back(fr);
  c.setup(*this, s0);
  work.push_back(s0); long steps0 = cs.steps; long paths = 0; time_t t0 = time(nullptr);
  while (!work.empty()) {
    State s = std::move(work.back()); work.pop_back(); cur = &s;
    try {
      for (;;) {
        if (s.stuck) { cs.paths++; break; }
        if (s.outcome) {
          if (s.outcome == 4) break;
          inCheck = true; try { c.check(*this, s); } catch (...) { inCheck = false; throw; } inCheck = false; cs.paths++; paths++; break;
        }
        if (cs.steps - steps0 > c.maxSteps || paths > c.maxPaths || ((cs.steps & 1023) == 0 && time(nullptr) - t0 > caseSeconds)) { if (getenv("VPA_DEBUG")) { fprintf(stderr, "BUDGET %s %s: steps %ld paths %ld work %zu\n", c.fn.c_str(), c.desc.c_str(), cs.steps - steps0, paths, work.size()); for (auto &q : s.path.tail(60)) fprintf(stderr, "   %s %s\n", q.at ? loc(q.at).c_str() : "?", q.what.c_str()); }
          unknownWhy.insert("step budget exceeded in "+ c.fn + " " + c.desc); cs.unknown++; try { auto keep = probes; probe(s); std::map<i64, std::map<std::string, i64>> by; int lim = 0; for (auto &w : work) { if (++lim > 200) break; probes.clear(); probe(w); for (auto &m : probes) { i64 k = 0; for (auto &q : m) k = std::max(k, q.second); if (k <= 5000) by[k] = m; } } probes = keep; int left = 4; for (auto it = by.rbegin(); it != by.rend() && left > 0; ++it, --left) probes.insert(it->second); } catch (...) {} work.clear(); break; }
        try { step(s); }
        catch (ForkEx &fk) { for (auto &a : fk.alts) { size_t n0 = work.size(); std::vector<State> out; apply(s, a, out); for (auto &q : out) { if (fk.lin) q.linForks++; work.push_back(std::move(q)); } (void)n0; } break; }
      }
    } catch (ForkEx &fk) { // fork requested by the final check: re-run the check under each alternative
      for (auto &a : fk.alts) { std::vector<State> out; apply(s, a, out); for (auto &q : out) work.push_back(std::move(q)); }
    } catch (Unknown &u) { if (u.why == "!cut") { continue; } cs.unknown++; try { probe(s); } catch (...) {} unknownWhy.insert(u.why + " [" + (curI ? loc(curI) : "?") + "] in " + c.fn); if (getenv("VPA_DEBUG")) { fprintf(stderr, "UNKNOWN %s %s: %s at %s\n", c.fn.c_str(), c.desc.c_str(), u.why.c_str(), curI ? loc(curI).c_str() : "?"); if (curI) curI->print(errs()), errs() << "\n"; } }
  }
}
