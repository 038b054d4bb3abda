// Entry points for the static analysis of the word primitives, the bit
// iterators, pointers, references and values.  Never executed; only compiled
// to LLVM IR.
#include <cstdint>
#include <cstddef>
#include <tuple>
#include <vector>
#include <utility>
#include "bitlib/bit-iterator/bit.hpp"
#include "bitlib/bit-algorithms/bit_algorithm.hpp"
// character streams holding up to two characters, in place of the library's
#include <istream>
#include <ostream>
struct vp_traits : std::char_traits<char> {};
struct vp_buf {
  int seq[2]; int pos = 0; bool thr;
  int sgetc() { if (thr) throw 1; return pos == 0 ? seq[0] : pos == 1 ? seq[1] : -1; }
  int sbumpc() { int c = sgetc(); if (c >= 0) pos++; return c; }
  int snextc() { return sbumpc() < 0 ? -1 : sgetc(); }
  int sputbackc(char c) { if (thr) throw 1; if (pos == 0) return -1; --pos; seq[pos] = (unsigned char)c; return (unsigned char)c; }
  int sungetc() { if (thr) throw 1; if (pos == 0) return -1; --pos; return pos == 0 ? seq[0] : seq[1]; }
  std::streamsize in_avail() { return pos == 0 ? (seq[0] >= 0) + (seq[0] >= 0 && seq[1] >= 0) : pos == 1 ? seq[1] >= 0 : 0; }
  std::streamsize sgetn(char *p, std::streamsize n) { std::streamsize k = 0; for (; k < n; k++) { int c = sbumpc(); if (c < 0) break; p[k] = (char)c; } return k; }
};
template <> class std::basic_istream<char, vp_traits> {
public:
  using ios_base = std::ios_base; using traits_type = vp_traits; using char_type = char; using int_type = int; using iostate = std::ios_base::iostate;
  mutable vp_buf buf; unsigned st; long gc = 0;
  basic_istream(int c, int n, bool g, bool t) : buf{{c, n}, 0, t}, st(g ? 0 : unsigned(std::ios_base::eofbit)) {}
  struct sentry { bool ok; explicit sentry(basic_istream &s, bool = false) : ok(s.good()) { if (!ok) s.setstate(std::ios_base::failbit); } explicit operator bool() const { return ok; } };
  vp_buf *rdbuf() const { return &buf; }
  char widen(char c) const { return c; }
  char narrow(char c, char) const { return c; }
  void setstate(iostate s) { st |= s; }
  void clear(iostate s = std::ios_base::goodbit) { st = s; }
  iostate rdstate() const { return iostate(st); }
  iostate exceptions() const { return std::ios_base::goodbit; }
  bool good() const { return st == 0; }
  bool eof() const { return st & std::ios_base::eofbit; }
  bool bad() const { return st & std::ios_base::badbit; }
  bool fail() const { return st & (std::ios_base::badbit | std::ios_base::failbit); }
  bool operator!() const { return fail(); }
  explicit operator bool() const { return !fail(); }
  long gcount() const { return gc; }
  int get() { sentry k(*this, true); gc = 0; int c = -1; if (k) { try { c = buf.sbumpc(); if (c < 0) st |= std::ios_base::eofbit | std::ios_base::failbit; else gc = 1; } catch (...) { st |= std::ios_base::badbit; } } return c; }
  basic_istream &get(char &r) { int c = get(); if (c >= 0) r = (char)c; return *this; }
  basic_istream &operator>>(char &r) { return get(r); }
  int peek() { sentry k(*this, true); gc = 0; int c = -1; if (k) { try { c = buf.sgetc(); if (c < 0) st |= std::ios_base::eofbit; } catch (...) { st |= std::ios_base::badbit; } } return c; }
  basic_istream &unget() { st &= ~unsigned(std::ios_base::eofbit); sentry k(*this, true); gc = 0; if (k) { try { if (buf.sungetc() < 0) st |= std::ios_base::badbit; } catch (...) { st |= std::ios_base::badbit; } } return *this; }
  basic_istream &putback(char c) { st &= ~unsigned(std::ios_base::eofbit); sentry k(*this, true); gc = 0; if (k) { try { if (buf.sputbackc(c) < 0) st |= std::ios_base::badbit; } catch (...) { st |= std::ios_base::badbit; } } return *this; }
  basic_istream &ignore(std::streamsize n = 1, int = -1) { for (; n > 0 && get() >= 0; n--) ; return *this; }
};
struct vp_obuf { int count = 0, last = 0; int sputc(char c) { count++; last = (unsigned char)c; return last; } std::streamsize sputn(const char *p, std::streamsize n) { for (std::streamsize i = 0; i < n; i++) sputc(p[i]); return n; } };
template <> class std::basic_ostream<char, vp_traits> {
public:
  using ios_base = std::ios_base; using traits_type = vp_traits; using char_type = char; using int_type = int; using iostate = std::ios_base::iostate;
  mutable vp_obuf buf;
  struct sentry { explicit sentry(basic_ostream &) {} explicit operator bool() const { return true; } };
  vp_obuf *rdbuf() const { return &buf; }
  char widen(char c) const { return c; }
  void setstate(iostate) {}
  bool good() const { return true; }
  bool fail() const { return false; }
  bool operator!() const { return false; }
  explicit operator bool() const { return true; }
  basic_ostream &put(char c) { buf.sputc(c); return *this; }
  basic_ostream &write(const char *p, std::streamsize n) { buf.sputn(p, n); return *this; }
  basic_ostream &operator<<(char c) { return put(c); }
  basic_ostream &operator<<(bool b) { return put(b ? '1' : '0'); }
  basic_ostream &operator<<(int v) { if (v < 0 || v > 9) { buf.count = 3; return *this; } return put(char('0' + v)); }
  basic_ostream &operator<<(unsigned v) { return *this << int(v > 9 ? 10 : v); }
  basic_ostream &operator<<(const char *p) { for (; *p; ++p) put(*p); return *this; }
};
using vp_is = std::basic_istream<char, vp_traits>; using vp_os = std::basic_ostream<char, vp_traits>;
static inline unsigned pack(const vp_is &i) { int c = i.buf.pos == 0 ? i.buf.seq[0] : i.buf.seq[1]; return unsigned(i.buf.pos & 3) << 1 | (i.st & 7) << 3 | (unsigned(c) & 511) << 8; }
#ifdef VP_VECITER
template <class W> using It = typename std::vector<W>::iterator;
template <class W> using CIt = typename std::vector<W>::const_iterator;
template <class W> static inline const W *raw(It<W> i) { return i.base(); }
template <class W> static inline const W *raw(CIt<W> i) { return i.base(); }
#else
template <class W> using It = W *;
template <class W> using CIt = const W *;
template <class W> static inline const W *raw(const W *i) { return i; }
#endif
template <class W> struct RI { const W *base; std::size_t pos; };
template <class W> static inline bit::bit_iterator<It<W>> mk(W *b, std::size_t p) { return bit::bit_iterator<It<W>>(It<W>(b), p); }
template <class W> static inline bit::bit_iterator<CIt<W>> mkc(W *b, std::size_t p) { return bit::bit_iterator<CIt<W>>(CIt<W>(b), p); }
template <class W> static inline bit::bit_pointer<W> bp(W *b, std::size_t p) { return bit::bit_pointer<W>(b, p); }
template <class W> static inline bit::bit_pointer<const W> cbp(W *b, std::size_t p) { return bit::bit_pointer<const W>(b, p); }
template <class W> static inline bit::bit_reference<W> br(W *b, std::size_t p) { return bit::bit_reference<W>(*b, p); }
template <class W, class I> static inline void out(RI<W> *r, const bit::bit_iterator<I> &i) { r->base = raw<W>(i.base()); r->pos = i.position(); }
template <class W, class V> static inline void out(RI<W> *r, const bit::bit_reference<V> &x) { r->base = x.address(); r->pos = x.position(); }
template <class W, class V> static inline void out(RI<W> *r, const bit::bit_pointer<V> &x) { out<W>(r, *x); }
static inline bit::bit_value bv(bool b) { return b ? bit::bit1 : bit::bit0; }
template <class X, class Y> static inline unsigned cmp6(const X &a, const Y &b) { return unsigned(a == b) | unsigned(a != b) << 1 | unsigned(a < b) << 2 | unsigned(a <= b) << 3 | unsigned(a > b) << 4 | unsigned(a >= b) << 5; }
using bit::bit_value; using bit::bit_reference;
#define ITOPS(pre, MK, MKC, B, W) \
  void pre##_add_##B(W *s, size_t p, int64_t n, RI<W> *r) { out<W>(r, MK(s, p) + n); } \
  void pre##_radd_##B(W *s, size_t p, int64_t n, RI<W> *r) { out<W>(r, n + MK(s, p)); } \
  void pre##_sub_##B(W *s, size_t p, int64_t n, RI<W> *r) { out<W>(r, MK(s, p) - n); } \
  void pre##_addeq_##B(W *s, size_t p, int64_t n, RI<W> *r) { auto i = MK(s, p); auto &q = (i += n); out<W>(r, i); out<W>(r + 1, q); } \
  void pre##_subeq_##B(W *s, size_t p, int64_t n, RI<W> *r) { auto i = MK(s, p); auto &q = (i -= n); out<W>(r, i); out<W>(r + 1, q); } \
  void pre##_idx_##B(W *s, size_t p, int64_t n, RI<W> *r) { out<W>(r, MK(s, p)[n]); } \
  void pre##_inc_##B(W *s, size_t p, RI<W> *r) { auto i = MK(s, p); auto &q = ++i; out<W>(r, i); out<W>(r + 1, q); } \
  void pre##_dec_##B(W *s, size_t p, RI<W> *r) { auto i = MK(s, p); auto &q = --i; out<W>(r, i); out<W>(r + 1, q); } \
  void pre##_pinc_##B(W *s, size_t p, RI<W> *r) { auto i = MK(s, p); auto o = i++; out<W>(r, i); out<W>(r + 1, o); } \
  void pre##_pdec_##B(W *s, size_t p, RI<W> *r) { auto i = MK(s, p); auto o = i--; out<W>(r, i); out<W>(r + 1, o); } \
  int64_t pre##_diff_##B(W *s, size_t p, W *t, size_t q) { return MK(s, p) - MK(t, q); } \
  int64_t pre##_diffc_##B(W *s, size_t p, W *t, size_t q) { return MKC(s, p) - MK(t, q); } \
  unsigned pre##_cmp_##B(W *s, size_t p, W *t, size_t q) { return cmp6(MK(s, p), MK(t, q)); } \
  unsigned pre##_cmpc_##B(W *s, size_t p, W *t, size_t q) { return cmp6(MKC(s, p), MK(t, q)); } \
  void pre##_deref_##B(W *s, size_t p, RI<W> *r) { auto i = MK(s, p); out<W>(r, *i); auto j = i; out<W>(r + 1, j); }
#if !defined(VP_ONLY) || defined(VP_G_count)
#define GEN_count(B, W) \
  W popcnt_##B(W a) { return bit::_popcnt(a); } \
  W popcntx_##B(W a) { return bit::_popcnt(a, std::ignore); } \
  W lzcnt_##B(W a) { return bit::_lzcnt(a); } \
  W lzcntx_##B(W a) { return bit::_lzcnt(a, std::ignore); } \
  W tzcnt_##B(W a) { return bit::_tzcnt(a); } \
  W tzcntx_##B(W a) { return bit::_tzcnt(a, std::ignore); }
#else
#define GEN_count(B, W)
#endif
#if !defined(VP_ONLY) || defined(VP_G_perm)
#define GEN_perm(B, W) \
  W pdep_##B(W a, W m) { return bit::_pdep<W>(a, m, std::ignore); } \
  W pext_##B(W a, W m) { return bit::_pext<W>(a, m, std::ignore); } \
  W byteswap_##B(W a) { return bit::_byteswap(a); } \
  W byteswapx_##B(W a) { return bit::_byteswap(a, std::ignore); } \
  W bitswap_##B(W a) { return bit::_bitswap(a); }
#else
#define GEN_perm(B, W)
#endif
#if !defined(VP_ONLY) || defined(VP_G_field)
#define GEN_field(B, W) \
  W bextr_##B(W a, W s, W l) { return bit::_bextr<W>(a, s, l); } \
  W blend3_##B(W a, W b, W m) { return bit::_bitblend<W>(a, b, m); } \
  W blend4_##B(W a, W b, W s, W l) { return bit::_bitblend<W>(a, b, s, l); } \
  void exch3_##B(W *a, W m) { bit::_bitexch<W>(a[0], a[1], m); } \
  void exch4_##B(W *a, size_t s, size_t l) { bit::_bitexch<W, size_t>(a[0], a[1], s, l); } \
  void exch5_##B(W *a, size_t s, size_t t, size_t l) { bit::_bitexch<W, size_t>(a[0], a[1], s, t, l); } \
  W bitcmp_##B(W a, W b, W s, W t, W l) { return bit::_bitcmp<W>(a, b, s, t, l); }
#else
#define GEN_field(B, W)
#endif
#if !defined(VP_ONLY) || defined(VP_G_wide)
#define GEN_wide(B, W) \
  W shld_##B(W a, W b, W c) { return bit::_shld<W>(a, b, c); } \
  W shrd_##B(W a, W b, W c) { return bit::_shrd<W>(a, b, c); } \
  unsigned char addcarry_##B(unsigned char c, W a, W b, W *d) { return bit::_addcarry<unsigned char, W>(c, a, b, d); } \
  unsigned char subborrow_##B(unsigned char c, W a, W b, W *d) { return bit::_subborrow<unsigned char, W>(c, a, b, d); } \
  unsigned char addcarryx_##B(unsigned char c, W a, W b, W *d) { return bit::_addcarry<unsigned char, W>(c, a, b, d, std::ignore); } \
  unsigned char subborrowx_##B(unsigned char c, W a, W b, W *d) { return bit::_subborrow<unsigned char, W>(c, a, b, d, std::ignore); }
#else
#define GEN_wide(B, W)
#endif
#if !defined(VP_ONLY) || defined(VP_G_mul)
#define GEN_mul(B, W) \
  W mulxx_##B(W a, W b, W *h) { return bit::_mulx<W>(a, b, h, std::ignore); } \
  W mulx_##B(W a, W b, W *h) { return bit::_mulx<W>(a, b, h); }
#else
#define GEN_mul(B, W)
#endif
#if !defined(VP_ONLY) || defined(VP_G_words)
#define GEN_words(B, W) \
  W getword_##B(W *s, size_t p, size_t l) { return bit::get_word<W>(mk<W>(s, p), l); } \
  void writeword_##B(W v, W *s, size_t p, W l) { bit::write_word<W>(v, mk<W>(s, p), l); } \
  W padded_##B(W *s, size_t p, W *t, size_t q, unsigned char v) { return bit::_padded_read(mk<W>(s, p), mk<W>(t, q), bv(v)); }
#else
#define GEN_words(B, W)
#endif
#if !defined(VP_ONLY) || defined(VP_G_wshift)
#define GEN_wshift(B, W) \
  int64_t wshl_##B(W *s, W *t, int64_t n) { return raw<W>(bit::word_shift_left(It<W>(s), It<W>(t), n)) - s; } \
  int64_t wshr_##B(W *s, W *t, int64_t n) { return raw<W>(bit::word_shift_right(It<W>(s), It<W>(t), n)) - s; }
#else
#define GEN_wshift(B, W)
#endif
#if !defined(VP_ONLY) || defined(VP_G_iter)
#define GEN_iter(B, W) \
  bool within_##B(W *s, size_t p, W *t, size_t q) { return bit::is_within<B>(mk<W>(s, p), mk<W>(t, q)); } \
  bool within2_##B(W *s, size_t p, W *t, size_t q) { return bit::is_within<B * 2>(mk<W>(s, p), mk<W>(t, q)); } \
  bool within0_##B(W *s, size_t p, W *t, size_t q) { return bit::is_within<B / 2 + 1>(mk<W>(s, p), mk<W>(t, q)); } \
  int64_t dist_##B(W *s, size_t p, W *t, size_t q) { return bit::distance(mk<W>(s, p), mk<W>(t, q)); } \
  void next_##B(W *s, size_t p, int64_t n, RI<W> *r) { out<W>(r, bit::next(mk<W>(s, p), n)); } \
  void adv_##B(W *s, size_t p, int64_t n, RI<W> *r) { auto i = mk<W>(s, p); bit::advance(i, n); out<W>(r, i); } \
  ITOPS(it, mk<W>, mkc<W>, B, W) \
  void it_conv_##B(W *s, size_t p, RI<W> *r) { auto i = mk<W>(s, p); bit::bit_iterator<CIt<W>> c(i), d; d = i; out<W>(r, c); out<W>(r + 1, d); } \
  void it_arrow_##B(W *s, size_t p) { mk<W>(s, p)->set(); } \
  W it_mask_##B(W *s, size_t p) { return mk<W>(s, p).mask(); } \
  void it_word_##B(W *s, RI<W> *r) { bit::bit_iterator<It<W>> i{It<W>(s)}; out<W>(r, i); bit::bit_pointer<W> q(s); out<W>(r + 1, q); }
#else
#define GEN_iter(B, W)
#endif
#if !defined(VP_ONLY) || defined(VP_G_ptr)
#define GEN_ptr(B, W) \
  ITOPS(bp, bp<W>, cbp<W>, B, W) \
  void bp_conv_##B(W *s, size_t p, RI<W> *r) { auto i = bp<W>(s, p); bit::bit_pointer<const W> c(i), d; d = i; out<W>(r, c); out<W>(r + 1, d); } \
  void bp_copy_##B(W *s, size_t p, W *t, size_t q, RI<W> *r) { auto i = bp<W>(s, p), j = bp<W>(t, q); out<W>(r, i); i = j; out<W>(r + 1, i); } \
  void bp_arrow_##B(W *s, size_t p) { bp<W>(s, p)->set(); } \
  unsigned bp_null_##B(W *s, size_t p) { bit::bit_pointer<W> n, m(nullptr), q = bp<W>(s, p), z = q; bool a = bool(q); z = nullptr; return unsigned(bool(n)) | unsigned(bool(m)) << 1 | unsigned(bool(z)) << 2 | unsigned(!a) << 3 | unsigned(n != m) << 4 | unsigned(z != n) << 5 | unsigned(q == bit::bit_pointer<W>(nullptr)) << 6 | unsigned(n == q) << 7; } \
  bool bp_first_##B(W *s) { return bool(bit::bit_pointer<W>(s)); }
#else
#define GEN_ptr(B, W)
#endif
#if !defined(VP_ONLY) || defined(VP_G_ref)
#define GEN_ref(B, W) \
  W ref_mask_##B(W *s, size_t p) { return br<W>(s, p).mask(); } \
  bool ref_bool_##B(W *s, size_t p) { return bool(br<W>(s, p)); } \
  void ref_addr_##B(W *s, size_t p, RI<W> *r) { auto x = br<W>(s, p); out<W>(r, x); out<W>(r + 1, &x); } \
  void ref_addr0_##B(W *s, RI<W> *r) { bit_reference<W> x(*s); out<W>(r, x); bit_reference<W> y(x); out<W>(r + 1, y); } \
  void ref_asgv_##B(W *s, size_t p, bool v) { br<W>(s, p) = bv(v); } \
  void ref_asgr_##B(W *s, size_t p, W *t, size_t q) { br<W>(s, p) = br<W>(t, q); } \
  void ref_asgc_##B(W *s, size_t p, W *t, size_t q) { br<W>(s, p) = bit_reference<const W>(*t, q); } \
  void ref_asgw_##B(W *s, size_t p, W v) { br<W>(s, p).assign(v); } \
  void ref_asgwp_##B(W *s, size_t p, W v, size_t k) { br<W>(s, p).assign(v, k); } \
  void ref_and_##B(W *s, size_t p, bool v) { br<W>(s, p) &= bv(v); } \
  void ref_or_##B(W *s, size_t p, bool v) { br<W>(s, p) |= bv(v); } \
  void ref_xor_##B(W *s, size_t p, bool v) { br<W>(s, p) ^= bv(v); } \
  void ref_andr_##B(W *s, size_t p, W *t, size_t q) { br<W>(s, p) &= br<W>(t, q); } \
  void ref_orr_##B(W *s, size_t p, W *t, size_t q) { br<W>(s, p) |= br<W>(t, q); } \
  void ref_xorr_##B(W *s, size_t p, W *t, size_t q) { br<W>(s, p) ^= br<W>(t, q); } \
  void ref_swapr_##B(W *s, size_t p, W *t, size_t q) { br<W>(s, p).swap(br<W>(t, q)); } \
  void ref_fswap_##B(W *s, size_t p, W *t, size_t q) { swap(br<W>(s, p), br<W>(t, q)); } \
  bool ref_swapv_##B(W *s, size_t p, bool v) { bit_value x = bv(v); br<W>(s, p).swap(x); return bool(x); } \
  bool ref_fswapv_##B(W *s, size_t p, bool v) { bit_value x = bv(v); swap(br<W>(s, p), x); return bool(x); } \
  bool ref_fswapw_##B(W *s, size_t p, bool v) { bit_value x = bv(v); swap(x, br<W>(s, p)); return bool(x); } \
  bool ref_vswap_##B(W *s, size_t p, bool v) { bit_value x = bv(v); x.swap(br<W>(s, p)); return bool(x); } \
  void ref_setb_##B(W *s, size_t p, bool v) { br<W>(s, p).set(v); } \
  void ref_set_##B(W *s, size_t p) { br<W>(s, p).set(); } \
  void ref_reset_##B(W *s, size_t p) { br<W>(s, p).reset(); } \
  void ref_flip_##B(W *s, size_t p) { br<W>(s, p).flip(); } \
  unsigned ref_cmp_##B(W *s, size_t p, W *t, size_t q) { return cmp6(br<W>(s, p), br<W>(t, q)); }
#else
#define GEN_ref(B, W)
#endif
#if !defined(VP_ONLY) || defined(VP_G_io)
#define GEN_io(B, W) \
  unsigned io_readr_##B(W *s, size_t p, int c, int n, bool g, bool t) { vp_is i(c, n, g, t); bit_reference<W> r = br<W>(s, p); i >> r; return pack(i); } \
  unsigned io_printr_##B(W *s, size_t p) { vp_os o; o << br<W>(s, p); return unsigned(o.buf.last) | unsigned(o.buf.count) << 8; }
#else
#define GEN_io(B, W)
#endif
#if !defined(VP_ONLY) || defined(VP_G_val)
#define GEN_val(B, W) \
  bool val_ref_##B(W *s, size_t p) { return bool(bit_value(br<W>(s, p))); } \
  bool val_refa_##B(W *s, size_t p) { bit_value x; x = br<W>(s, p); return bool(x); } \
  bool val_w_##B(W a) { return bool(bit_value(a)); } \
  bool val_wp_##B(W a, size_t k) { return bool(bit_value(a, k)); } \
  bool val_aw_##B(W a) { bit_value x; return bool(x.assign(a)); } \
  bool val_awp_##B(W a, size_t k) { bit_value x; return bool(x.assign(a, k)); }
#else
#define GEN_val(B, W)
#endif
#if defined(VP_G_dbg) // only ever on its own: std::string comes with its bodies
#include "bitlib/bit-containers/bit-containers.hpp"
template class std::basic_string<char>;
extern "C" void vp_str(const char *p, size_t n) noexcept;
#define GEN_dbg(B, W) \
  void dbgs_##B(W *s, size_t n, size_t j) { bit::bit_vector<W> v(s, s + n); for (size_t i = 0; i < j; i++) v.pop_back(); std::string t = v.debug_string(); vp_str(t.data(), t.size()); } \
  void dbgr_##B(W *s, size_t n, size_t j, size_t f, size_t l) { bit::bit_vector<W> v(s, s + n); for (size_t i = 0; i < j; i++) v.pop_back(); std::string t = v.debug_string(v.cbegin() + f, v.cbegin() + l); vp_str(t.data(), t.size()); }
#else
#define GEN_dbg(B, W)
#endif
#define GEN(B, W) extern "C" { GEN_dbg(B, W) GEN_count(B, W) GEN_perm(B, W) GEN_field(B, W) GEN_wide(B, W) GEN_mul(B, W) GEN_words(B, W) GEN_wshift(B, W) GEN_iter(B, W) GEN_ptr(B, W) GEN_ref(B, W) GEN_io(B, W) GEN_val(B, W) }
GEN(8, uint8_t)
GEN(16, uint16_t)
GEN(32, uint32_t)
GEN(64, uint64_t)
extern "C" {
#if !defined(VP_ONLY) || defined(VP_G_val)
unsigned val_cmp_8(bool a, bool b) { return cmp6(bit_value(a), bit_value(b)); }
unsigned val_bin_8(bool a, bool b) { bit_value x(a), y(b); return unsigned(bool(x & y)) | unsigned(bool(x | y)) << 1 | unsigned(bool(x ^ y)) << 2 | unsigned(bool(~x)) << 3; }
unsigned val_asg_8(bool a, bool b) { bit_value x(a), y(a), z(a), w(b); x &= w; y |= w; z ^= w; return unsigned(bool(x)) | unsigned(bool(y)) << 1 | unsigned(bool(z)) << 2 | unsigned(bool(w)) << 3; }
unsigned val_swap_8(bool a, bool b) { bit_value x(a), y(b); x.swap(y); bit_value u(a), v(b); using std::swap; swap(u, v); return unsigned(bool(x)) | unsigned(bool(y)) << 1 | unsigned(bool(u)) << 2 | unsigned(bool(v)) << 3; }
unsigned val_set_8(bool a, bool b) { bit_value x(a), y(a), z(a), w(a), d; x.set(); y.reset(); z.flip(); w.set(b); return unsigned(bool(x)) | unsigned(bool(y)) << 1 | unsigned(bool(z)) << 2 | unsigned(bool(w)) << 3 | unsigned(bool(d)) << 4; }
unsigned val_const_8() { return unsigned(bool(bit::bit0)) | unsigned(bool(bit::bit1)) << 1 | unsigned(bool(bit::bit_off)) << 2 | unsigned(bool(bit::bit_on)) << 3; }
#endif
#if !defined(VP_ONLY) || defined(VP_G_popcnt)
uint64_t pcnt_8(const void *p, uint64_t n) { return popcnt(p, n); }
uint64_t pcnt2_8(const void *p, uint64_t n) { popcnt(p, 1); return popcnt(p, n); }
#endif
#if !defined(VP_ONLY) || defined(VP_G_io)
unsigned io_readv_8(bool v, int c, int n, bool g, bool t) { vp_is i(c, n, g, t); bit_value x(v); i >> x; return unsigned(bool(x)) | pack(i); }
unsigned io_printv_8(bool v) { vp_os o; o << bit_value(v); return unsigned(o.buf.last) | unsigned(o.buf.count) << 8; }
#endif
}
