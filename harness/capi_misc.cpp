// P13 (continued): comparison, tags
#include "capi.h"
static inline int sign(fptu_lge x) { return x == fptu_lt ? -1 : x == fptu_gt ? 1 : x == fptu_eq ? 0 : 2; }
/* the oracle: first difference decides, as unsigned bytes */
static inline int lex(const uint8_t *a, size_t n, const uint8_t *b, size_t m) {
  for (size_t i = 0; i < n && i < m; ++i)
    if (a[i] != b[i])
      return a[i] < b[i] ? -1 : 1;
  return n < m ? -1 : n > m;
}
/* two strings of bytes that agree up to a place and differ there (or nowhere) */
static inline void pair(uint8_t *a, uint8_t *b, size_t n) {
  const size_t at = size_t(vp_enum("differ at", 0, int64_t(n)));
  for (size_t i = 0; i < n; ++i)
    b[i] = a[i] = uint8_t(i * 37 + 200);
  if (at < n) {
    static const uint8_t xs[] = {0, 127, 128};
    a[at] = xs[vp_enum("left", 0, 2)];
    b[at] = xs[vp_enum("right", 0, 2)];
    if (at + 1 < n) { /* what follows must not matter */
      a[n - 1] = uint8_t(vp_enum("tail", 0, 1));
      b[n - 1] = uint8_t(1 - a[n - 1]);
    }
  }
}
VP_OBLIGATION(ob_cmp_binary) {
  uint8_t *const a = static_cast<uint8_t *>(vp_alloc(8, 0, "a")), *const b = static_cast<uint8_t *>(vp_alloc(8, 0, "b"));
  pair(a, b, 4);
  const size_t n = size_t(vp_enum("left length", 0, 4)), m = size_t(vp_enum("right length", 0, 4));
  vp_assert(sign(fptu_cmp_binary(a, n, b, m)) == lex(a, n, b, m), "comparison is lexicographic over unsigned bytes, a prefix is less");
}
VP_OBLIGATION(ob_cmp_fixed) {
  static const kind ks[] = {K_96, K_128, K_160, K_256};
  const kind k = ks[vp_enum("type", 0, 3)];
  const size_t n = k == K_96 ? 12 : k == K_128 ? 16 : k == K_160 ? 20 : 32;
  uint8_t *const a = static_cast<uint8_t *>(vp_alloc(32, 0, "a")), *const b = static_cast<uint8_t *>(vp_alloc(32, 0, "b"));
  pair(a, b, n);
  fptu_rw *const t = fresh();
  val v = make(k, 1);
  v.p = reinterpret_cast<const char *>(a);
  NEED(store(INSERT, k, t, 6, v) == FPTU_OK);
  const fptu_ro r = fptu_take_noshrink(t);
  fptu_lge x, none, null;
  switch (k) {
#define X(N) case K_##N: x = fptu_cmp_##N(r, 6, b); none = fptu_cmp_##N(r, 7, b); null = fptu_cmp_##N(r, 6, nullptr); break;
  VP_CBINS(X)
#undef X
  default: return;
  }
  vp_assert(sign(x) == lex(a, n, b, n), "comparison is lexicographic over unsigned bytes");
  vp_assert(none == fptu_ic && null == fptu_ic, "absent values are incomparable");
}
VP_OBLIGATION(ob_cmp_opaque) {
  uint8_t *const a = static_cast<uint8_t *>(vp_alloc(8, 0, "a")), *const b = static_cast<uint8_t *>(vp_alloc(8, 0, "b"));
  pair(a, b, 4);
  const size_t n = size_t(vp_enum("left length", 0, 4)), m = size_t(vp_enum("right length", 0, 4));
  fptu_rw *const t = fresh();
  NEED(fptu_insert_opaque(t, 6, a, n) == FPTU_OK);
  const fptu_ro r = fptu_take_noshrink(t);
  vp_assert(sign(fptu_cmp_opaque(r, 6, b, m)) == lex(a, n, b, m), "comparison is lexicographic over unsigned bytes, a prefix is less");
  iovec v;
  v.iov_base = b;
  v.iov_len = m;
  vp_assert(fptu_cmp_opaque_iov(r, 6, v) == fptu_cmp_opaque(r, 6, b, m), "both forms agree");
  vp_assert(fptu_cmp_opaque(r, 7, b, m) == (m ? fptu_ic : fptu_eq), "an absent value equals the empty one only");
}
VP_OBLIGATION(ob_tag) {
  const kind k = kind(vp_enum("type", 0, KINDS - 1));
  const unsigned col = unsigned(vp_u("column", 0, fptu_max_cols));
  const auto tag = fptu_make_tag(col, ktype[k]);
  vp_assert(fptu_get_colnum(tag) == col, "a tag keeps the column");
  vp_assert(fptu_get_type(tag) == ktype[k], "a tag keeps the type");
  vp_assert(fptu_tag_is_fixedsize(tag) == (k < K_string), "a tag tells whether the type is of a fixed size");
  vp_assert(!fptu_tag_is_deleted(tag), "and that the field is not erased");
}
VP_OBLIGATION(ob_iov) {
  /* the iovec forms do the same as the plain ones */
  const val v = make(K_opaque, 2), w = make(K_opaque, 1);
  iovec a, b;
  a.iov_base = const_cast<char *>(v.p);
  a.iov_len = v.n;
  b.iov_base = const_cast<char *>(w.p);
  b.iov_len = w.n;
  fptu_rw *const t = fresh();
  vp_assert(fptu_update_opaque_iov(t, 6, a) == FPTU_ENOFIELD, "nothing to update yet");
  vp_assert(fptu_upsert_opaque_iov(t, 6, a) == FPTU_OK && fptu_insert_opaque_iov(t, 7, a) == FPTU_OK, "stored");
  vp_assert(reads(K_opaque, fptu_take_noshrink(t), 6, v, nullptr) && reads(K_opaque, fptu_take_noshrink(t), 7, v, nullptr), "and read back");
  vp_assert(fptu_update_opaque_iov(t, 6, b) == FPTU_OK && reads(K_opaque, fptu_take_noshrink(t), 6, w, nullptr), "and updated");
  vp_assert(fptu_upsert_cstr(t, 8, "hello") == FPTU_OK && fptu_insert_cstr(t, 9, "world!") == FPTU_OK && fptu_update_cstr(t, 8, "bye") == FPTU_OK, "zero-terminated forms");
  const fptu_ro r = fptu_take_noshrink(t);
  vp_assert(same(fptu_get_cstr(r, 8, nullptr), "bye", 4) && same(fptu_get_cstr(r, 9, nullptr), "world!", 7), "read back");
}
VP_OBLIGATION(ob_cmp_long) {
  static const size_t longs[] = {255, 256, 257, 65535, 65536, 65537, 65540, 131072, 262148};
  const size_t n = longs[vp_enum("length", 0, 8)], m = size_t(vp_enum("short", 0, 5));
  uint8_t *const a = static_cast<uint8_t *>(vp_alloc(262200, 0, "a")), *const b = static_cast<uint8_t *>(vp_alloc(8, 0, "b"));
  for (unsigned i = 0; i < 8; ++i)
    a[i] = b[i] = uint8_t(i + 1);
  vp_assert(fptu_cmp_binary(a, n, b, m) == fptu_gt && fptu_cmp_binary(b, m, a, n) == fptu_lt, "a prefix is less however long the other is");
  fptu_rw *const t = fresh();
  NEED(fptu_insert_opaque(t, 6, b, m) == FPTU_OK);
  vp_assert(fptu_cmp_opaque(fptu_take_noshrink(t), 6, a, n) == fptu_lt, "a prefix is less however long the other is");
}
