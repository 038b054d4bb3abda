// Entry points for the static analysis of bit_vector.  Never executed; only
// compiled to LLVM IR.  Only the public interface is used.  vp_obs/vp_ret/
// vp_bit hand the observable state to the specification (tool/spec_vec.cpp);
// vp_arm/vp_disarm delimit the part in which allocations may fail.
#include <cstdint>
#include <cstddef>
#include <vector>
#include <string_view>
#include <initializer_list>
#include <utility>
#include "bitlib/bitlib.hpp"
using bit::bit_iterator; using bit::bit_value; using bit::bit_reference;
extern "C" {
void vp_obs(int tag, const void *first, size_t size, size_t cap, const void *endw, size_t endb, bool empty, const void *data) noexcept;
void vp_ret(const void *first, const void *word, size_t pos) noexcept;
void vp_bit(const void *first, const void *word, size_t pos) noexcept;
void vp_val(int tag, bool v) noexcept;
void vp_arm() noexcept;
void vp_disarm() noexcept;
void vp_freeze(const void *object, const void *words) noexcept;
void vp_thaw(const void *object, const void *words) noexcept;
void vp_own(const void *p, int id) noexcept;
void vp_disown(const void *p, int id, size_t bytes) noexcept;
void vp_id(const void *first, int id, size_t size) noexcept;
}
#ifdef VP_G_alloc // an allocator with identity: nothing it hands out may be released through another one
template <class T> struct VA {
  using value_type = T; int id; VA(int i = 0) noexcept : id(i) {} template <class U> VA(const VA<U> &o) noexcept : id(o.id) {}
  T *allocate(std::size_t n) { T *p = static_cast<T *>(::operator new(n * sizeof(T))); vp_own(p, id); return p; }
  void deallocate(T *p, std::size_t n) noexcept { vp_disown(p, id, n * sizeof(T)); ::operator delete(p); }
};
template <class T, class U> static inline bool operator==(const VA<T> &a, const VA<U> &b) noexcept { return a.id == b.id; }
template <class T, class U> static inline bool operator!=(const VA<T> &a, const VA<U> &b) noexcept { return a.id != b.id; }
template <class W> using bit_vector = bit::bit_vector<W, VA<W>>;
#define AL(id) , VA<W>(id)
#define ALV(name, id) VA<W> name(id);
#define ID(v, id) vp_id(wordOf(v), id, v.size());
#else
template <class W> using bit_vector = bit::bit_vector<W>;
#define AL(id)
#define ALV(name, id) std::allocator<W> name;
#define ID(v, id)
#endif
static inline bit_value bv(unsigned char b) { return b ? bit::bit1 : bit::bit0; }
template <class W> static inline const void *wordOf(const bit_vector<W> &v) { return v.begin().base().base(); }
template <class W> static inline void obs(int tag, const bit_vector<W> &v) {
  auto e = v.end();
  vp_obs(tag, wordOf(v), v.size(), v.capacity(), e.base().base(), e.position(), v.empty(), v.data());
}
// the state is also observed through a copy, which has exactly the words the vector owns
template <class W> static inline void obs2(int tag, const bit_vector<W> &v) { obs(tag, v); bit_vector<W> c(v); obs(tag, c); }
template <class W, class I> static inline void ret(const bit_vector<W> &v, I i) { vp_ret(wordOf(v), i.base().base(), i.position()); }
template <class W, class R> static inline void ref(const bit_vector<W> &v, const R &r) { vp_bit(wordOf(v), r.address(), r.position()); }
// the last bits are dropped by popping, by shrinking or by erasing (j >> 8)
#define DROP { size_t k = j & 255, how = j >> 8; if (how == 1) v.resize(v.size() - k); else if (how == 2) v.erase(v.end() - k, v.end()); else for (size_t i = 0; i < k; i++) v.pop_back(); }
// n words, of which the last j bits are dropped again; the storage has room for `cap` bits
#define BUILD bit_vector<W> v(src, src + n AL(1)); DROP if (cap) v.reserve(cap);
// the same bits through the bit-range constructor, whose storage is larger than needed
#define BUILDX bit_vector<W> v(bit_iterator<W *>(src), bit_iterator<W *>(src + n) AL(1)); DROP if (cap) v.reserve(cap);
#define OP(stmt, tagged) try { if (arm) vp_arm(); stmt; vp_disarm(); } catch (...) { vp_disarm(); obs2(9, v); return; } tagged;
#define BOTH(name, PARAMS, ...) \
  template <class W> static inline void name PARAMS { BUILD __VA_ARGS__ } \
  template <class W> static inline void x##name PARAMS { BUILDX __VA_ARGS__ }
#define P0 W *src, size_t n, size_t j, size_t cap, unsigned char arm
#define A0 src, n, j, cap, arm
BOTH(pushback, (P0, unsigned char b), { OP(v.push_back(bv(b)), obs2(1, v)) })
BOTH(popback, (P0), { OP(v.pop_back(), obs2(1, v)) })
BOTH(insert1, (P0, size_t d, unsigned char b), { typename bit_vector<W>::iterator r; OP(r = v.insert(v.begin() + d, bv(b)), ret(v, r); obs2(1, v)) })
BOTH(insertn, (P0, size_t d, size_t c, unsigned char b), { typename bit_vector<W>::iterator r; OP(r = v.insert(v.begin() + d, c, bv(b)), ret(v, r); obs2(1, v)) })
BOTH(insertr, (P0, size_t d, W *src2, size_t n2, size_t f, size_t l), { bit_vector<W> u(src2, src2 + n2 AL(2)); typename bit_vector<W>::iterator r; OP(r = v.insert(v.begin() + d, u.begin() + f, u.begin() + l), ret(v, r); obs2(1, v); obs(2, u)) })
BOTH(erase1, (P0, size_t d), { typename bit_vector<W>::iterator r; OP(r = v.erase(v.begin() + d), ret(v, r); obs2(1, v)) })
BOTH(eraser, (P0, size_t d, size_t e), { typename bit_vector<W>::iterator r; OP(r = v.erase(v.begin() + d, v.begin() + e), ret(v, r); obs2(1, v)) })
BOTH(resize, (P0, size_t c), { OP(v.resize(c), obs2(1, v)) })
BOTH(resizev, (P0, size_t c, unsigned char b), { OP(v.resize(c, bv(b)), obs2(1, v)) })
BOTH(reserve, (P0, size_t c), { OP(v.reserve(c), obs2(1, v); vp_val(7, v.capacity() >= c)) })
BOTH(shrink, (P0), { OP(v.shrink_to_fit(), obs2(1, v)) })
BOTH(clear, (P0, unsigned char b), { OP(v.clear(), obs2(1, v)) v.push_back(bv(b)); obs2(2, v); })
// element access: the reference must designate the bit; at() must refuse positions past the end
BOTH(at, (P0, size_t d), { try { auto r = v.at(d); ref(v, r); vp_val(1, bool(r)); } catch (const std::out_of_range &) { vp_val(8, true); } obs(1, v); })
BOTH(atc, (P0, size_t d), { const bit_vector<W> &k = v; try { auto r = k.at(d); ref(v, r); vp_val(1, bool(r)); } catch (const std::out_of_range &) { vp_val(8, true); } obs(1, v); })
BOTH(index, (P0, size_t d), { auto r = v[d]; ref(v, r); vp_val(1, bool(r)); obs(1, v); })
BOTH(indexc, (P0, size_t d), { const bit_vector<W> &k = v; auto r = k[d]; ref(v, r); vp_val(1, bool(r)); obs(1, v); })
BOTH(front, (P0), { auto r = v.front(); ref(v, r); vp_val(1, bool(r)); obs(1, v); })
BOTH(frontc, (P0), { const bit_vector<W> &k = v; auto r = k.front(); ref(v, r); vp_val(1, bool(r)); obs(1, v); })
BOTH(back, (P0), { auto r = v.back(); ref(v, r); vp_val(1, bool(r)); obs(1, v); })
BOTH(backc, (P0), { const bit_vector<W> &k = v; auto r = k.back(); ref(v, r); vp_val(1, bool(r)); obs(1, v); })
BOTH(store, (P0, size_t d, unsigned char b), { v[d] = bv(b); obs(1, v); })
BOTH(flipat, (P0, size_t d), { v.at(d).flip(); obs(1, v); })
BOTH(iters, (P0), { ret(v, v.begin()); ret(v, v.cbegin()); const bit_vector<W> &k = v; ret(v, k.begin()); auto a = v.end(), b = v.begin() + v.size(); vp_val(7, a == b && v.cend() == a && k.end() == a); vp_val(7, size_t(v.end() - v.begin()) == v.size() && size_t(v.cend() - v.cbegin()) == v.size()); vp_val(7, v.size() == 0 || static_cast<const void *>(v.data()) == wordOf(v)); obs(1, v); })
// reading a const vector stores nothing in it, so that it may be read from several places at once
BOTH(constread, (P0, size_t d), { const bit_vector<W> &k = v; vp_freeze(&k, wordOf(k)); vp_val(1, bool(k[d])); vp_val(1, bool(k.at(d))); vp_val(1, bool(k.begin()[d])); vp_val(1, bool(*(k.cbegin() + d)));
  vp_val(1, bool(*(k.cend() - (k.size() - d)))); vp_val(7, k.empty() == (k.size() == 0) && k.capacity() >= k.size() && k.max_size() >= k.size() && k.data() == wordOf(k)); vp_val(7, bool(k.front()) == bool(k[0]) && bool(k.back()) == bool(k[k.size() - 1]));
  { bit_vector<W> u(k); obs(1, u); u = k; obs(1, u); } vp_thaw(&k, wordOf(k)); obs(1, v); })
// constructors
template <class W> static inline void ctorwords(W *src, size_t n, unsigned char arm) { try { if (arm) vp_arm(); bit_vector<W> v(src, src + n AL(1)); vp_disarm(); obs2(1, v); } catch (...) { vp_disarm(); vp_val(6, true); } }
template <class W> static inline void ctorcount(size_t c, unsigned char arm) { try { if (arm) vp_arm(); bit_vector<W> v(c AL(1)); vp_disarm(); obs2(1, v); } catch (...) { vp_disarm(); vp_val(6, true); } }
template <class W> static inline void ctorcountv(size_t c, unsigned char b, unsigned char arm) { try { if (arm) vp_arm(); bit_vector<W> v(c, bv(b) AL(1)); vp_disarm(); obs2(1, v); } catch (...) { vp_disarm(); vp_val(6, true); } }
template <class W> static inline void ctorbits(W *src, size_t fp, size_t e, unsigned char arm) { try { if (arm) vp_arm(); bit_iterator<W *> b(src); bit_vector<W> v(b + fp, b + e AL(1)); vp_disarm(); obs2(1, v); } catch (...) { vp_disarm(); vp_val(6, true); } }
template <class W> static inline void ctorbool(bool *p, size_t n, unsigned char arm) { try { if (arm) vp_arm(); bit_vector<W> v(p, p + n AL(1)); vp_disarm(); obs2(1, v); } catch (...) { vp_disarm(); vp_val(6, true); } }
template <class W> static inline void ctorstr(const char *p, size_t n, unsigned char arm) { try { if (arm) vp_arm(); bit_vector<W> v(std::string_view(p, n)); vp_disarm(); obs2(1, v); } catch (...) { vp_disarm(); vp_val(6, true); } }
template <class W> static inline void ctorilw(W a, W b, W c) { bit_vector<W> v(std::initializer_list<W>{a, b, c} AL(1)); obs2(1, v); }
template <class W> static inline void ctorilb(bool a, bool b, bool c) { bit_vector<W> v(std::initializer_list<bool>{a, b, c} AL(1)); obs2(1, v); }
template <class W> static inline void ctorilv(unsigned char a, unsigned char b, unsigned char c) { bit_vector<W> v(std::initializer_list<bit_value>{bv(a), bv(b), bv(c)} AL(1)); obs2(1, v); }
template <class W> static inline void ctordef(unsigned char b) { bit_vector<W> v; obs2(1, v); v.push_back(bv(b)); obs2(2, v); ALV(al, 1) bit_vector<W> w(al); obs2(1, w); w.push_back(bv(b)); obs2(2, w); }
// copies and moves
BOTH(copyctor, (P0, size_t d), { { bit_vector<W> u(v); ID(u, 1) obs2(1, u); obs(1, v); u[d].flip(); obs(2, u); obs(1, v); } v[d].flip(); obs(2, v); })
BOTH(copyctora, (P0, size_t d), { ALV(al, 3) bit_vector<W> u(v, al); ID(u, 3) obs2(1, u); u[d].flip(); obs(2, u); obs(1, v); })
BOTH(movector, (P0, unsigned char b), { if (arm) vp_arm(); bit_vector<W> u(std::move(v)); vp_disarm(); ID(u, 1) obs2(1, u); v.clear(); v.push_back(bv(b)); obs(3, v); obs(1, u); })
BOTH(movectora, (P0, unsigned char b), { ALV(al, 3) bit_vector<W> u(std::move(v), al); ID(u, 3) obs2(1, u); obs(4, v); v.push_back(bv(b)); obs(3, v); obs(1, u); })
BOTH(moveassign, (P0, W *src2, size_t n2, unsigned char b), { bit_vector<W> u(src2, src2 + n2 AL(2)); if (arm) vp_arm(); u = std::move(v); vp_disarm(); ID(u, 2) obs2(1, u); obs(4, v); v.push_back(bv(b)); obs(3, v); obs(1, u); })
BOTH(copyassign, (P0, W *src2, size_t n2, size_t d), { bit_vector<W> u(src2, src2 + n2 AL(2)); try { if (arm) vp_arm(); u = v; vp_disarm(); } catch (...) { vp_disarm(); obs2(5, u); obs2(1, v); return; } ID(u, 2) obs2(1, u); obs(1, v); u[d].flip(); obs(2, u); obs(1, v); })
BOTH(selfassign, (P0), { bit_vector<W> &u = v; v = u; obs2(1, v); })
// the state after an operation must support every other one: short histories
BOTH(pushpop, (P0, unsigned char b, size_t m), { for (size_t i = 0; i < m; i++) v.push_back(bv((b >> i) & 1)); obs2(1, v); for (size_t i = 0; i < m; i++) v.pop_back(); obs2(2, v); for (size_t i = 0; i < m; i++) v.push_back(bv(!((b >> i) & 1))); obs2(3, v); })
BOTH(erasepush, (P0, size_t d, size_t e, unsigned char b), { v.erase(v.begin() + d, v.begin() + e); v.push_back(bv(b)); v.push_back(bv(!b)); obs2(1, v); })
BOTH(eraseinsert, (P0, size_t d, size_t e, size_t c, unsigned char b), { v.erase(v.begin() + d, v.begin() + e); v.insert(v.begin() + d, c, bv(b)); obs2(1, v); })
BOTH(resizeback, (P0, size_t c, size_t e), { v.resize(c); v.resize(e); obs2(1, v); })
BOTH(shrinkpush, (P0, unsigned char b), { v.shrink_to_fit(); v.push_back(bv(b)); obs2(1, v); })
#define I1(name, B, W, PARAMS, ARGS) extern "C" void name##_##B PARAMS { name<W> ARGS; } extern "C" void x##name##_##B PARAMS { x##name<W> ARGS; }
#define GEN(B, T) namespace n##B { typedef T W; \
  I1(pushback, B, W, (P0, unsigned char b), (A0, b)) I1(popback, B, W, (P0), (A0)) I1(insert1, B, W, (P0, size_t d, unsigned char b), (A0, d, b)) \
  I1(insertn, B, W, (P0, size_t d, size_t c, unsigned char b), (A0, d, c, b)) I1(insertr, B, W, (P0, size_t d, W *src2, size_t n2, size_t f, size_t l), (A0, d, src2, n2, f, l)) \
  I1(erase1, B, W, (P0, size_t d), (A0, d)) I1(eraser, B, W, (P0, size_t d, size_t e), (A0, d, e)) I1(resize, B, W, (P0, size_t c), (A0, c)) I1(resizev, B, W, (P0, size_t c, unsigned char b), (A0, c, b)) \
  I1(reserve, B, W, (P0, size_t c), (A0, c)) I1(shrink, B, W, (P0), (A0)) I1(clear, B, W, (P0, unsigned char b), (A0, b)) \
  I1(at, B, W, (P0, size_t d), (A0, d)) I1(atc, B, W, (P0, size_t d), (A0, d)) I1(index, B, W, (P0, size_t d), (A0, d)) I1(indexc, B, W, (P0, size_t d), (A0, d)) \
  I1(front, B, W, (P0), (A0)) I1(frontc, B, W, (P0), (A0)) I1(back, B, W, (P0), (A0)) I1(backc, B, W, (P0), (A0)) \
  I1(store, B, W, (P0, size_t d, unsigned char b), (A0, d, b)) I1(flipat, B, W, (P0, size_t d), (A0, d)) I1(iters, B, W, (P0), (A0)) I1(constread, B, W, (P0, size_t d), (A0, d)) \
  extern "C" void ctorwords_##B(W *src, size_t n, unsigned char arm) { ctorwords<W>(src, n, arm); } extern "C" void ctorcount_##B(size_t c, unsigned char arm) { ctorcount<W>(c, arm); } \
  extern "C" void ctorcountv_##B(size_t c, unsigned char b, unsigned char arm) { ctorcountv<W>(c, b, arm); } extern "C" void ctorbits_##B(W *src, size_t fp, size_t e, unsigned char arm) { ctorbits<W>(src, fp, e, arm); } \
  extern "C" void ctorbool_##B(bool *p, size_t n, unsigned char arm) { ctorbool<W>(p, n, arm); } extern "C" void ctorstr_##B(const char *p, size_t n, unsigned char arm) { ctorstr<W>(p, n, arm); } \
  extern "C" void ctorilw_##B(W *p) { ctorilw<W>(p[0], p[1], p[2]); } extern "C" void ctorilb_##B(bool *p) { ctorilb<W>(p[0], p[1], p[2]); } extern "C" void ctorilv_##B(bool *p) { ctorilv<W>(p[0], p[1], p[2]); } extern "C" void ctordef_##B(unsigned char b) { ctordef<W>(b); } \
  I1(copyctor, B, W, (P0, size_t d), (A0, d)) I1(copyctora, B, W, (P0, size_t d), (A0, d)) I1(movector, B, W, (P0, unsigned char b), (A0, b)) I1(movectora, B, W, (P0, unsigned char b), (A0, b)) \
  I1(moveassign, B, W, (P0, W *src2, size_t n2, unsigned char b), (A0, src2, n2, b)) I1(copyassign, B, W, (P0, W *src2, size_t n2, size_t d), (A0, src2, n2, d)) I1(selfassign, B, W, (P0), (A0)) \
  I1(pushpop, B, W, (P0, unsigned char b, size_t m), (A0, b, m)) I1(erasepush, B, W, (P0, size_t d, size_t e, unsigned char b), (A0, d, e, b)) I1(eraseinsert, B, W, (P0, size_t d, size_t e, size_t c, unsigned char b), (A0, d, e, c, b)) \
  I1(resizeback, B, W, (P0, size_t c, size_t e), (A0, c, e)) I1(shrinkpush, B, W, (P0, unsigned char b), (A0, b)) }
GEN(8, uint8_t)
GEN(16, uint16_t)
GEN(32, uint32_t)
GEN(64, uint64_t)
