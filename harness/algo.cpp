// Entry points for the static analysis of the bit algorithms: one plain
// function per (algorithm, word type).  Never executed; only compiled to LLVM
// IR.  VP_ITER selects the word iterator the algorithms are instantiated with.
#include <cstdint>
#include <cstddef>
#include <functional>
#include <vector>
#include "bitlib/bit-iterator/bit.hpp"
#include "bitlib/bit-algorithms/bit_algorithm.hpp"
#ifdef VP_VECITER
template <class W> using It = typename std::vector<W>::iterator;
template <class W> static inline W *raw(It<W> i) { return i.base(); }
#else
template <class W> using It = W *;
template <class W> static inline W *raw(W *i) { return i; }
#endif
template <class W> struct RI { W *base; std::size_t pos; };
template <class W> static inline bit::bit_iterator<It<W>> mk(W *b, std::size_t p) { return bit::bit_iterator<It<W>>(It<W>(b), p); }
template <class W, class I> static inline void out(RI<W> *r, I i) { r->base = raw<W>(i.base()); r->pos = i.position(); }
static inline bit::bit_value bv(unsigned char b) { return b ? bit::bit1 : bit::bit0; }
#define GEN(B, W)                                                                                                            \
  extern "C" W vp_u1_##B(W);                                                                                                 \
  extern "C" W vp_b2_##B(W, W);                                                                                              \
  struct U1_##B { W operator()(W x) const { return vp_u1_##B(x); } };                                                        \
  struct B2_##B { W operator()(W x, W y) const { return vp_b2_##B(x, y); } };                                                \
  extern "C" {                                                                                                               \
  void copy_##B(W *s, size_t fp, W *l, size_t lp, W *d, size_t dp, RI<W> *r) { out<W>(r, bit::copy(mk<W>(s, fp), mk<W>(l, lp), mk<W>(d, dp))); } \
  void move_##B(W *s, size_t fp, W *l, size_t lp, W *d, size_t dp, RI<W> *r) { out<W>(r, bit::move(mk<W>(s, fp), mk<W>(l, lp), mk<W>(d, dp))); } \
  void copy_backward_##B(W *s, size_t fp, W *l, size_t lp, W *d, size_t dp, RI<W> *r) { out<W>(r, bit::copy_backward(mk<W>(s, fp), mk<W>(l, lp), mk<W>(d, dp))); } \
  void fill_##B(W *s, size_t fp, W *l, size_t lp, unsigned char v) { bit::fill(mk<W>(s, fp), mk<W>(l, lp), bv(v)); }          \
  bool equal_##B(W *s, size_t fp, W *l, size_t lp, W *d, size_t dp) { return bit::equal(mk<W>(s, fp), mk<W>(l, lp), mk<W>(d, dp)); } \
  void find_##B(W *s, size_t fp, W *l, size_t lp, unsigned char v, RI<W> *r) { out<W>(r, bit::find(mk<W>(s, fp), mk<W>(l, lp), bv(v))); } \
  int64_t count_##B(W *s, size_t fp, W *l, size_t lp, unsigned char v) { return bit::count(mk<W>(s, fp), mk<W>(l, lp), bv(v)); } \
  void reverse_##B(W *s, size_t fp, W *l, size_t lp) { bit::reverse(mk<W>(s, fp), mk<W>(l, lp)); }                            \
  void rotate_##B(W *s, size_t fp, W *m, size_t mp, W *l, size_t lp, RI<W> *r) { out<W>(r, bit::rotate(mk<W>(s, fp), mk<W>(m, mp), mk<W>(l, lp))); } \
  void shift_left_##B(W *s, size_t fp, W *l, size_t lp, int64_t n, RI<W> *r) { out<W>(r, bit::shift_left(mk<W>(s, fp), mk<W>(l, lp), n)); } \
  void shift_right_##B(W *s, size_t fp, W *l, size_t lp, int64_t n, RI<W> *r) { out<W>(r, bit::shift_right(mk<W>(s, fp), mk<W>(l, lp), n)); } \
  void swap_ranges_##B(W *s, size_t fp, W *l, size_t lp, W *d, size_t dp, RI<W> *r) { out<W>(r, bit::swap_ranges(mk<W>(s, fp), mk<W>(l, lp), mk<W>(d, dp))); } \
  void transform1_##B(W *s, size_t fp, W *l, size_t lp, W *d, size_t dp, RI<W> *r) { out<W>(r, bit::transform(mk<W>(s, fp), mk<W>(l, lp), mk<W>(d, dp), U1_##B())); } \
  void transformnot_##B(W *s, size_t fp, W *l, size_t lp, W *d, size_t dp, RI<W> *r) { out<W>(r, bit::transform(mk<W>(s, fp), mk<W>(l, lp), mk<W>(d, dp), std::bit_not<W>())); } \
  void transform2_##B(W *s, size_t fp, W *l, size_t lp, W *t, size_t tp, W *d, size_t dp, RI<W> *r) { out<W>(r, bit::transform(mk<W>(s, fp), mk<W>(l, lp), mk<W>(t, tp), mk<W>(d, dp), B2_##B())); } \
  }
GEN(8, uint8_t)
GEN(16, uint16_t)
GEN(32, uint32_t)
GEN(64, uint64_t)
