// P13: fields stored through the C interface
#include "capi.h"

static inline void check_one(fptu_ro r, kind k, unsigned col, const val &v) {
  int error = 12345;
  vp_assert(reads(k, r, col, v, &error), "the getter returns what was stored");
  vp_assert(error == FPTU_OK, "the getter reports success");
  vp_assert(reads(k, r, col, v, nullptr), "the getter does without an error code");
  const fptu_field *const pf = fptu_lookup_ro(r, col, fptu_type_or_filter(ktype[k]));
  vp_assert(pf != nullptr, "the stored field is found");
  vp_assert(field_reads(k, pf, v), "the field holds what was stored");
  vp_assert(fptu_field_type(pf) == ktype[k] && fptu_field_column(pf) == int(col), "the field has the type and the column it was stored with");
}
VP_OBLIGATION(ob_store) {
  fptu_rw *const t = fresh();
  const kind k = kind(vp_enum("type", 0, KINDS - 1));
  const how h = vp_enum("insert", 0, 1) ? INSERT : UPSERT;
  const val v = make(k, 0);
  static const unsigned cols[] = {0, 5, fptu_max_cols};
  const unsigned col = cols[vp_enum("column", 0, 2)];
  NEED(fptu_upsert_uint64(t, 3, 0x0123456789abcdef) == FPTU_OK);
  NEED(store(h, k, t, col, v) == FPTU_OK);
  NEED(fptu_upsert_uint32(t, 4, 0x76543210) == FPTU_OK);
  const fptu_ro r = fptu_take_noshrink(t);
  vp_assert(fptu_check_ro(r) == nullptr && fptu_check_rw(t) == nullptr, "the tuple is well-formed");
  check_one(r, k, col, v);
  int error = 1;
  vp_assert(fptu_get_uint64(r, 3, &error) == 0x0123456789abcdef && error == FPTU_OK, "other fields keep their values");
  vp_assert(fptu_get_uint32(r, 4, &error) == 0x76543210, "other fields keep their values");
}
static inline fptu_type_or_filter T(kind k) { return fptu_type_or_filter(ktype[k]); }
static inline fptu_type_or_filter M(kind k) { return fptu_type_or_filter(fptu_filter_mask(ktype[k])); }
static inline kind any_kind() { return kind(vp_enum("type", 0, KINDS - 1)); }
/* a bystander of another type in the same column and one of the same type in another column */
static inline kind other(kind k) { return k == K_uint32 ? K_uint64 : K_uint32; }
static inline void bystanders(fptu_rw *t, kind k, unsigned col) {
  NEED(store(INSERT, other(k), t, col, make(other(k), 9)) == FPTU_OK);
  NEED(store(INSERT, k, t, col + 1, make(k, 5)) == FPTU_OK);
}
static inline void bystanders_stay(const fptu_rw *t, kind k, unsigned col) {
  const fptu_ro r = fptu_take_noshrink(t);
  int error = 1;
  vp_assert(reads(other(k), r, col, make(other(k), 9), &error) && error == FPTU_OK, "a field of another type in the same column stays as it was");
  vp_assert(reads(k, r, col + 1, make(k, 5), &error) && error == FPTU_OK, "a field of the same type in another column stays as it was");
  vp_assert(fptu_field_count_rw(t, col, T(other(k))) == 1 && fptu_field_count_rw(t, col + 1, T(k)) == 1, "the other fields are still there once");
  vp_assert(fptu_check_rw(t) == nullptr && fptu_check_ro(r) == nullptr, "the tuple is well-formed");
}
VP_OBLIGATION(ob_overwrite) {
  const kind k = any_kind();
  const bool shorter = vp_enum("shorter", 0, 1);
  const how h = vp_enum("update", 0, 1) ? UPDATE : UPSERT;
  fptu_rw *const t = fresh();
  NEED(store(UPSERT, k, t, 6, make(k, shorter ? 2 : 1)) == FPTU_OK);
  bystanders(t, k, 6);
  const val v = make(k, shorter ? 1 : 2);
  vp_assert(store(h, k, t, 6, v) == FPTU_OK, "a stored field can be overwritten");
  vp_assert(fptu_field_count_rw(t, 6, T(k)) == 1, "overwriting leaves one field");
  const fptu_ro r = fptu_take_noshrink(t);
  check_one(r, k, 6, v);
  bystanders_stay(t, k, 6);
}
VP_OBLIGATION(ob_insert) {
  const kind k = any_kind();
  fptu_rw *const t = fresh();
  const unsigned n = unsigned(vp_enum("elements", 1, 3));
  const unsigned between = unsigned(vp_enum("bystanders after", 0, 3));
  for (unsigned i = 0; i < n; ++i) {
    if (i == between)
      bystanders(t, k, 6);
    NEED(store(INSERT, k, t, 6, make(k, i + 1)) == FPTU_OK);
  }
  if (between >= n)
    bystanders(t, k, 6);
  const fptu_ro r = fptu_take_noshrink(t);
  vp_assert(fptu_field_count_rw(t, 6, T(k)) == n && fptu_field_count_ro(r, 6, T(k)) == n, "as many fields as were inserted");
  vp_assert(fptu_field_count_rw(t, 6, M(k)) == n && fptu_field_count_ro(r, 6, M(k)) == n, "as many fields under the filter as were inserted");
  vp_assert(fptu_field_count_ro(r, 6, fptu_type_or_filter(fptu_any)) == n + 1, "the filter for any type takes all fields of the column");
  vp_assert(fptu_field_count_ro(r, 5, fptu_type_or_filter(fptu_any)) == 0 && fptu_field_count_ro(r, 5, T(k)) == 0, "none in a column never stored");
  unsigned seen = 0;
  const fptu_field *const end = fptu_end_ro(r);
  const fptu_type_or_filter how = vp_enum("by filter", 0, 1) ? M(k) : T(k);
  for (const fptu_field *pf = fptu_first(fptu_begin_ro(r), end, 6, how); pf != end; pf = fptu_next(pf, end, 6, how)) {
    vp_assert(!fptu_field_is_dead(pf) && fptu_field_type(pf) == ktype[k] && fptu_field_column(pf) == 6, "the search gives fields of the type and column asked for");
    unsigned mine = 0;
    for (unsigned i = 0; i < n; ++i)
      if (field_reads(k, pf, make(k, i + 1)))
        mine |= k == K_bool ? 1 : 1u << i;
    vp_assert(mine != 0, "each found field holds an inserted value");
    vp_assert(k == K_bool || (seen & mine) == 0, "each inserted value is found once");
    seen |= mine;
  }
  vp_assert(k == K_bool || seen == (1u << n) - 1, "every inserted value is found");
  bystanders_stay(t, k, 6);
}
VP_OBLIGATION(ob_update_absent) {
  const kind k = any_kind();
  fptu_rw *const t = fresh();
  bystanders(t, k, 6);
  const size_t items = fptu_space4items(t), data = fptu_space4data(t);
  const unsigned col = vp_enum("column", 0, 1) ? 8 : 6;
  vp_assert(store(UPDATE, k, t, col, make(k, 1)) == FPTU_ENOFIELD, "updating an absent field is refused");
  vp_assert(fptu_last_error_code() == FPTU_ENOFIELD, "the last error tells why");
  vp_assert(fptu_space4items(t) == items && fptu_space4data(t) == data && fptu_junkspace(t) == 0, "a refused update takes no space");
  vp_assert(fptu_field_count_rw(t, col, T(k)) == 0, "a refused update adds nothing");
  bystanders_stay(t, k, 6);
}
VP_OBLIGATION(ob_erase) {
  const kind k = any_kind();
  fptu_rw *const t = fresh();
  NEED(store(INSERT, k, t, 6, make(k, 1)) == FPTU_OK);
  bystanders(t, k, 6);
  NEED(store(INSERT, k, t, 6, make(k, 2)) == FPTU_OK);
  switch (vp_enum("how", 0, 5)) {
  case 0:
    vp_assert(fptu_erase(t, 6, M(k)) == 2, "erasing by a filter erases all that match");
    vp_assert(fptu_field_count_rw(t, 6, T(k)) == 0, "nothing is left of what was erased");
    break;
  case 1:
    vp_assert(fptu_erase(t, 6, T(k)) == 1, "erasing by a type erases one");
    vp_assert(fptu_field_count_rw(t, 6, T(k)) == 1, "one is left");
    vp_assert(fptu_erase(t, 6, T(k)) == 1 && fptu_erase(t, 6, T(k)) == 0, "the second is erased in turn and then there is none");
    break;
  case 2:
    vp_assert(fptu_erase(t, 7 + 1, T(k)) == 0 && fptu_erase(t, 8, M(k)) == 0, "erasing what is absent erases nothing");
    vp_assert(fptu_erase(t, fptu_max_cols + 1, T(k)) < 0 && fptu_erase(t, 1u << 11 | 6, M(k)) < 0, "an out-of-range column is an error");
    vp_assert(fptu_field_count_rw(t, 6, T(k)) == 2, "nothing was erased");
    break;
  case 3: {
    fptu_field *const pf = fptu_lookup_rw(t, 6, T(k));
    NEED(pf != nullptr);
    const bool first = field_reads(k, pf, make(k, 1));
    fptu_erase_field(t, pf);
    vp_assert(fptu_field_count_rw(t, 6, T(k)) == 1, "erasing a given field erases it alone");
    const fptu_ro r = fptu_take_noshrink(t);
    vp_assert(field_reads(k, fptu_lookup_ro(r, 6, T(k)), make(k, first ? 2 : 1)), "the remaining one is the other");
    break;
  }
  case 4:
    vp_assert(fptu_erase(t, 6, fptu_type_or_filter(fptu_any)) == 3, "erasing by the filter for any type erases the whole column");
    vp_assert(fptu_field_count_rw(t, 6, fptu_type_or_filter(fptu_any)) == 0 && fptu_field_count_rw(t, 7, T(k)) == 1, "the column is empty, the next one is not");
    vp_assert(fptu_check_rw(t) == nullptr, "the tuple is well-formed");
    return;
  case 5:
    vp_assert(fptu_erase(t, 6, T(k)) == 1 && fptu_junkspace(t) > 0 ? fptu_shrink(t) : true, "compaction reports that it moved fields");
    vp_assert(fptu_junkspace(t) == 0 && fptu_field_count_rw(t, 6, T(k)) == 1, "compaction leaves no junk");
    break;
  }
  bystanders_stay(t, k, 6);
}
VP_OBLIGATION(ob_filters) {
  const kind k = any_kind();
  fptu_rw *const t = fresh();
  NEED(store(INSERT, k, t, 6, make(k, 1)) == FPTU_OK);
  const fptu_ro r = fptu_take_noshrink(t);
  const bool is_uint = k == K_uint16 || k == K_uint32 || k == K_uint64;
  const bool is_int = is_uint || k == K_bool || k == K_int32 || k == K_int64;
  const bool is_fp = k == K_fp32 || k == K_fp64;
  const struct { uint32_t f; bool yes; } all[] = {{fptu_any, true}, {fptu_any_int, is_int}, {fptu_any_uint, is_uint}, {fptu_any_fp, is_fp}, {fptu_any_number, is_int || is_fp}, {0, false}};
  for (const auto &x : all) {
    const auto f = fptu_type_or_filter(x.f);
    const fptu_field *const pf = fptu_lookup_ro(r, 6, f);
    vp_assert((pf != nullptr) == x.yes, "a filter finds exactly the types it stands for");
    vp_assert(pf == nullptr || field_reads(k, pf, make(k, 1)), "the found field holds what was stored");
    vp_assert(fptu_lookup_rw(t, 6, f) == (x.yes ? fptu_begin_rw(t) : nullptr), "in the tuple under construction too");
    vp_assert(fptu_lookup_ro(r, 7, f) == nullptr && fptu_lookup_ro(r, 6 + 2048, f) == nullptr, "nothing in other columns");
  }
  const kind j = kind(vp_enum("asked type", 0, KINDS - 1));
  vp_assert((fptu_lookup_ro(r, 6, T(j)) != nullptr) == (j == k), "a type finds fields of that type only");
  vp_assert((fptu_lookup_rw(t, 6, T(j)) != nullptr) == (j == k), "a type finds fields of that type only");
  vp_assert((fptu_lookup_ro(r, 6, M(j)) != nullptr) == (j == k), "a filter for one type finds fields of that type only");
  const unsigned far = unsigned(vp_enum("far", 0, 40)) * 2048 + 6;
  vp_assert(far == 6 || (fptu_lookup_ro(r, far, T(j)) == nullptr && fptu_lookup_rw(t, far, T(j)) == nullptr), "an out-of-range column finds nothing");
}
static bool even_column(const fptu_field *pf, void *context, void *param) cxx17_noexcept {
  vp_assert(param == static_cast<void *>(context), "the filter gets its own arguments");
  vp_assert(!fptu_field_is_dead(pf), "the filter is not asked about erased fields");
  return fptu_field_column(pf) % 2 == 0;
}
VP_OBLIGATION(ob_callback) {
  const kind k = any_kind();
  fptu_rw *const t = fresh();
  for (unsigned i = 0; i < 4; ++i)
    NEED(store(INSERT, k, t, 10 + i, make(k, i + 1)) == FPTU_OK);
  const unsigned gone = unsigned(vp_enum("erased", 0, 4));
  NEED(gone == 4 || fptu_erase(t, 10 + gone, T(k)) == 1);
  const unsigned expect = gone == 0 || gone == 2 ? 1 : 2;
  int x;
  vp_assert(fptu_field_count_rw_ex(t, even_column, &x, &x) == expect, "the filter function counts the fields it accepts");
  const fptu_ro r = fptu_take_noshrink(t);
  vp_assert(fptu_field_count_ro_ex(r, even_column, &x, &x) == expect, "the filter function counts the fields it accepts");
  const fptu_field *const end = fptu_end_ro(r);
  unsigned seen = 0;
  for (const fptu_field *pf = fptu_first_ex(fptu_begin_ro(r), end, even_column, &x, &x); pf != end; pf = fptu_next_ex(pf, end, even_column, &x, &x)) {
    const unsigned i = unsigned(fptu_field_column(pf)) - 10;
    vp_assert((i == 0 || i == 2) && i != gone && !(seen >> i & 1), "each accepted field is given once");
    vp_assert(field_reads(k, pf, make(k, i + 1)), "with its value");
    seen |= 1u << i;
  }
  /* the raw range: erased fields have a negative column */
  unsigned live = 0;
  for (const fptu_field *pf = fptu_begin_ro(r); pf < end; ++pf)
    if (fptu_field_is_dead(pf))
      vp_assert(fptu_field_column(pf) < 0, "an erased field has a negative column");
    else
      ++live;
  vp_assert(live == (gone == 4 ? 4 : 3), "the range holds all the fields left");
}
VP_OBLIGATION(ob_raw_bytes) {
  const kind k = any_kind();
  fptu_rw *const t = fresh();
  const val v = make(k, 3);
  NEED(store(INSERT, k, t, 6, v) == FPTU_OK);
  const fptu_field *const pf = fptu_lookup_rw(t, 6, T(k));
  NEED(pf != nullptr);
  const iovec x = fptu_field_as_iovec(pf);
  const void *const p = fptu_field_payload(pf);
  size_t n;
  const void *want;
  uint64_t u = v.u;
  float f = float(v.f);
  switch (k) {
  case K_bool: n = 1; want = &u; break;
  case K_uint16: n = 2; want = &u; break;
  case K_int32: case K_uint32: n = 4; want = &u; break;
  case K_int64: case K_uint64: case K_datetime: n = 8; want = &u; break;
  case K_fp64: n = 8; want = &v.f; break;
  case K_fp32: n = 4; want = &f; break;
  case K_96: n = 12; want = v.p; break;
  case K_128: n = 16; want = v.p; break;
  case K_160: n = 20; want = v.p; break;
  case K_256: n = 32; want = v.p; break;
  case K_string: case K_opaque: n = v.n; want = v.p; break;
  default: n = v.ro.sys.iov_len; want = v.ro.sys.iov_base; break;
  }
  vp_assert(x.iov_len == n, "the raw value has the length in bytes that was stored");
  vp_assert(p == x.iov_base && same(x.iov_base, want, n), "the raw value has the bytes that were stored");
  const iovec none = fptu_field_as_iovec(nullptr);
  vp_assert(none.iov_base == nullptr && none.iov_len == 0, "nothing of nothing");
}
VP_OBLIGATION(ob_take_fetch) {
  const kind k = any_kind();
  fptu_rw *const t = fresh();
  NEED(store(INSERT, k, t, 6, make(k, 1)) == FPTU_OK);
  bystanders(t, k, 6);
  NEED(store(INSERT, k, t, 9, make(k, 2)) == FPTU_OK);
  if (vp_enum("with holes", 0, 1))
    NEED(fptu_erase(t, 6, T(k)) == 1);
  const bool was = fptu_field_count_rw(t, 6, T(k)) == 1;
  const size_t junk = fptu_junkspace(t);
  const fptu_ro r = fptu_take_noshrink(t);
  vp_assert(fptu_check_ro(r) == nullptr, "the taken form is well-formed");
  vp_assert((fptu_check_ro_ex(r, true) == nullptr) == (junk == 0), "the strict check refuses holes");
  const unsigned more = vp_enum("more", 0, 1) ? 3 : 0;
  const char *error = "";
  const size_t need = fptu_check_and_get_buffer_size(r, more, more * 8, &error);
  vp_assert(error == nullptr && need == fptu_get_buffer_size(r, more, more * 8), "the two estimates agree");
  fptu_cbfs_result cbfs;
  vp_assert(fptu_check_and_get_buffer_size_ex(r, more, more * 8, &cbfs) == need && cbfs.err == FPTU_OK, "the extended estimate agrees");
  void *const space = vp_alloc(need, 0, "copy");
  const bool ex = vp_enum("ex", 0, 1);
  fptu_rw *const c = ex ? fptu_fetch_ex(r, space, need, more, &cbfs) : fptu_fetch(r, space, need, more);
  vp_assert(c != nullptr, "a buffer of the estimated size is enough");
  vp_assert(fptu_check_rw(c) == nullptr && fptu_junkspace(c) == junk, "the copy is well-formed with the same account of junk");
  vp_assert(fptu_space4items(c) == more && fptu_space4data(c) >= more * 8, "with the room asked for");
  bystanders_stay(c, k, 6);
  check_one(fptu_take_noshrink(c), k, 9, make(k, 2));
  vp_assert((fptu_field_count_rw(c, 6, T(k)) == 1) == was, "with the fields of the source");
  for (unsigned i = 0; i < more; ++i)
    vp_assert(fptu_insert_uint64(c, 20 + i, i) == FPTU_OK, "the promised room can be used");
  bystanders_stay(c, k, 6);
  const fptu_ro s = fptu_take(c);
  vp_assert(fptu_check_ro_ex(s, true) == nullptr && fptu_junkspace(c) == 0, "taking compacts");
  bystanders_stay(c, k, 6);
  for (unsigned i = 0; i < more; ++i)
    vp_assert(fptu_get_uint64(s, 20 + i, nullptr) == i, "later fields are there too");
  vp_assert(!fptu_is_empty_ro(s) && !fptu_is_empty_rw(c), "a tuple with fields is not empty");
  vp_assert(fptu_clear(c) == FPTU_OK && fptu_is_empty_rw(c) && fptu_is_empty_ro(fptu_take_noshrink(c)) && fptu_check_rw(c) == nullptr, "clearing makes it empty");
  vp_assert(fptu_junkspace(c) == 0 && fptu_field_count_rw(c, 9, T(k)) == 0, "clearing leaves nothing");
  bystanders_stay(t, k, 6);
}
/* what is left of an erased field is not found in any column */
VP_OBLIGATION(ob_erased_invisible) {
  fptu_rw *const t = fresh();
  const unsigned units = unsigned(vp_enum("units", 1, 9));
  char buf[40];
  for (unsigned i = 0; i < sizeof(buf); ++i)
    buf[i] = char(i);
  NEED(fptu_insert_uint32(t, 3, 7) == FPTU_OK);
  NEED(fptu_insert_opaque(t, 5, buf, units * 4 - 4) == FPTU_OK);
  NEED(fptu_insert_uint32(t, 4, 8) == FPTU_OK);
  NEED(fptu_erase(t, 5, fptu_type_or_filter(fptu_opaque)) == 1);
  const fptu_ro r = fptu_take_noshrink(t);
  for (unsigned col = 0; col < 12; ++col) {
    static const uint32_t all[] = {fptu_any, fptu_any_int, fptu_any_uint, fptu_any_number, 0x7fffffff};
    const size_t n = col == 3 || col == 4;
    for (const uint32_t f : all) {
      vp_assert(fptu_field_count_rw(t, col, fptu_type_or_filter(f)) == n && fptu_field_count_ro(r, col, fptu_type_or_filter(f)) == n, "an erased field is not counted");
      vp_assert((fptu_lookup_ro(r, col, fptu_type_or_filter(f)) != nullptr) == (n != 0) && (fptu_lookup_rw(t, col, fptu_type_or_filter(f)) != nullptr) == (n != 0), "an erased field is not found");
    }
    if (!n)
      vp_assert(fptu_erase(t, col, fptu_type_or_filter(fptu_any)) == 0, "an erased field is not erased again");
  }
  vp_assert(fptu_check_rw(t) == nullptr, "the tuple is well-formed");
}
