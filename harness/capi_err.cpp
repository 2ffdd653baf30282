// P14: the C interface reports every failure by its code, changes nothing then, and lets no exception out
#include "capi.h"
static inline fptu_type_or_filter T(kind k) { return fptu_type_or_filter(ktype[k]); }
static inline kind any_kind() { return kind(vp_enum("type", 0, KINDS - 1)); }
static inline fptu_rw *with_two(size_t items = 10, size_t bytes = 1024) {
  fptu_rw *const t = fresh(items, bytes);
  NEED(fptu_insert_uint64(t, 3, 0x0123456789abcdef) == FPTU_OK);
  NEED(fptu_insert_string(t, 4, "neighbour", 9) == FPTU_OK);
  return t;
}
struct account {
  size_t items, data, junk, size;
  account(const fptu_rw *t) : items(fptu_space4items(t)), data(fptu_space4data(t)), junk(fptu_junkspace(t)), size(fptu_take_noshrink(t).sys.iov_len) {}
  bool operator==(const account &x) const { return items == x.items && data == x.data && junk == x.junk && size == x.size; }
};
static inline void unchanged(const fptu_rw *t, const account &before) {
  vp_assert(account(t) == before, "a refused operation changes nothing in the account of space");
  vp_assert(fptu_check_rw(t) == nullptr, "the tuple is well-formed");
  const fptu_ro r = fptu_take_noshrink(t);
  int error = 1;
  vp_assert(fptu_get_uint64(r, 3, &error) == 0x0123456789abcdef && error == FPTU_OK, "other fields keep their values");
  vp_assert(same(fptu_get_cstr(r, 4, &error), "neighbour", 10) && error == FPTU_OK, "other fields keep their values");
}
static inline bool defaults(kind k, fptu_ro r, unsigned col, int *error) {
  switch (k) {
#define X(N) case K_##N: return fptu_get_##N(r, col, error) == 0;
  X(uint16) X(bool) X(int32) X(uint32) X(int64) X(uint64)
#undef X
  case K_fp64: (void)fptu_get_fp64(r, col, error); return true;
  case K_fp32: (void)fptu_get_fp32(r, col, error); return true;
  case K_datetime: return fptu_get_datetime(r, col, error).fixedpoint == 0;
#define X(N) case K_##N: return fptu_get_##N(r, col, error) == nullptr;
  VP_CBINS(X)
#undef X
  case K_string: { const char *const s = fptu_get_cstr(r, col, error); return s == nullptr || *s == 0; }
  case K_opaque: return fptu_get_opaque(r, col, error).iov_len == 0;
  case K_nested: return fptu_get_nested(r, col, error).sys.iov_len == 0;
  default: __builtin_unreachable();
  }
}
VP_OBLIGATION(ob_absent) {
  const kind k = any_kind();
  fptu_rw *const t = with_two();
  fptu_clear_error();
  vp_assert(fptu_last_error_code() == FPTU_OK, "clearing forgets the last error");
  const fptu_ro r = fptu_take_noshrink(t);
  const unsigned col = k == K_string ? 3 : k == K_uint64 ? 4 : unsigned(vp_enum("column", 3, 5));
  int error = 12345;
  vp_assert(defaults(k, r, col, &error), "reading an absent field gives an empty value");
  vp_assert(error == FPTU_ENOFIELD, "reading an absent field reports that there is no such field");
  vp_assert(fptu_last_error_code() == FPTU_ENOFIELD, "so does the last error");
  vp_assert(defaults(k, r, col, nullptr), "the code is optional");
  /* and is not sticky */
  error = 12345;
  vp_assert(fptu_get_uint64(r, 3, &error) == 0x0123456789abcdef && error == FPTU_OK, "a later success is reported as such");
}
VP_OBLIGATION(ob_bad_column) {
  const kind k = any_kind();
  fptu_rw *const t = with_two();
  const account a(t);
  static const unsigned cols[] = {fptu_max_cols + 1, fptu_max_cols + 1 + 3, 0x8003, 0x10003, 0x80000003u, 0xffffffffu};
  const unsigned col = cols[vp_enum("column", 0, 5)];
  const how h = how(vp_enum("how", 0, 2));
  vp_assert(store(h, k, t, col, make(k, 1)) == FPTU_EINVAL, "storing in an out-of-range column is refused");
  vp_assert(fptu_last_error_code() == FPTU_EINVAL, "the last error tells why");
  unchanged(t, a);
  const fptu_ro r = fptu_take_noshrink(t);
  int error = 0;
  vp_assert(defaults(k, r, col, &error) && error != FPTU_OK, "reading from an out-of-range column is refused");
  vp_assert(fptu_field_count_ro(r, col, T(k)) == 0 && fptu_field_count_rw(t, col, T(k)) == 0, "nothing is there");
  vp_assert(fptu_field_count_ro(r, col, fptu_type_or_filter(fptu_any)) == 0 && fptu_field_count_rw(t, col, fptu_type_or_filter(fptu_any)) == 0, "nothing is there");
  vp_assert(!fptu_lookup_rw(t, col, T(k)) && !fptu_lookup_ro(r, col, T(k)) && !fptu_lookup_rw(t, col, fptu_type_or_filter(fptu_any)) && !fptu_lookup_ro(r, col, fptu_type_or_filter(fptu_any)), "nothing is found there");
  vp_assert(fptu_erase(t, col, T(k)) == -FPTU_EINVAL && fptu_erase(t, col, fptu_type_or_filter(fptu_any)) == -FPTU_EINVAL, "erasing from an out-of-range column is refused");
  unchanged(t, a);
}
VP_OBLIGATION(ob_wrong_type) {
  /* a field given to the getter of another type */
  const kind k = any_kind(), j = kind(vp_enum("getter", 0, KINDS - 1));
  vp_assume(j != k);
  fptu_rw *const t = fresh();
  NEED(store(INSERT, k, t, 6, make(k, 1)) == FPTU_OK);
  const fptu_field *const pf = fptu_lookup_rw(t, 6, T(k));
  NEED(pf != nullptr);
  fptu_clear_error();
  switch (j) {
#define X(N) case K_##N: vp_assert(fptu_field_##N(pf) == 0, "a field of another type reads as nothing"); break;
  X(uint16) X(bool) X(int32) X(uint32) X(int64) X(uint64)
#undef X
  case K_fp64: (void)fptu_field_fp64(pf); break;
  case K_fp32: (void)fptu_field_fp32(pf); break;
  case K_datetime: vp_assert(fptu_field_datetime(pf).fixedpoint == 0, "a field of another type reads as nothing"); break;
#define X(N) case K_##N: vp_assert(fptu_field_##N(pf) == nullptr, "a field of another type reads as nothing"); break;
  VP_CBINS(X)
#undef X
  case K_string: vp_assert(fptu_field_cstr(pf) == nullptr, "a field of another type reads as nothing"); break;
  case K_opaque: vp_assert(fptu_field_opaque(pf).iov_len == 0, "a field of another type reads as nothing"); break;
  case K_nested: vp_assert(fptu_field_nested(pf).sys.iov_len == 0, "a field of another type reads as nothing"); break;
  default: break;
  }
  vp_assert(fptu_last_error_code() == FPTU_EINVAL, "the last error tells of the mismatch");
}
VP_OBLIGATION(ob_no_field) {
  /* no field at all */
  const kind j = any_kind();
  switch (j) {
#define X(N) case K_##N: vp_assert(fptu_field_##N(nullptr) == 0, "no field reads as nothing"); break;
  X(uint16) X(bool) X(int32) X(uint32) X(int64) X(uint64)
#undef X
  case K_fp64: (void)fptu_field_fp64(nullptr); break;
  case K_fp32: (void)fptu_field_fp32(nullptr); break;
  case K_datetime: vp_assert(fptu_field_datetime(nullptr).fixedpoint == 0, "no field reads as nothing"); break;
#define X(N) case K_##N: vp_assert(fptu_field_##N(nullptr) == nullptr, "no field reads as nothing"); break;
  VP_CBINS(X)
#undef X
  case K_string: vp_assert(fptu_field_cstr(nullptr) == nullptr, "no field reads as nothing"); break;
  case K_opaque: vp_assert(fptu_field_opaque(nullptr).iov_len == 0, "no field reads as nothing"); break;
  case K_nested: vp_assert(fptu_field_nested(nullptr).sys.iov_len == 0, "no field reads as nothing"); break;
  default: break;
  }
  vp_assert(fptu_field_is_dead(nullptr) && fptu_field_column(nullptr) < 0 && fptu_field_type(nullptr) == fptu_null, "no field is dead, of no column and no type");
}
VP_OBLIGATION(ob_no_space) {
  const kind k = any_kind();
  /* index or data exhausted; the two neighbours take 2 entries and 2+3 units */
  const bool index = vp_enum("index", 0, 1);
  const size_t room = index ? 64 : size_t(vp_enum("units left", 0, 1)) * 4;
  fptu_rw *const t = with_two(index ? 2 : 4, fptu_space(index ? 2 : 4, 8 + 12 + room));
  const size_t need = k == K_bool || k == K_uint16 ? 0 : k == K_int32 || k == K_uint32 || k == K_fp32 ? 4 : 8;
  vp_assume(index || need > room);
  const account a(t);
  const how h = vp_enum("upsert", 0, 1) ? UPSERT : INSERT;
  vp_assert(store(h, k, t, 6, make(k, 1)) == FPTU_ENOSPACE, "without room storing is refused");
  vp_assert(fptu_last_error_code() == FPTU_ENOSPACE, "the last error tells why");
  unchanged(t, a);
  vp_assert(fptu_field_count_rw(t, 6, T(k)) == 0, "nothing was added");
}
VP_OBLIGATION(ob_grow_refused) {
  /* an existing value that can not grow stays */
  const kind k = vp_enum("opaque", 0, 1) ? K_opaque : K_string;
  fptu_rw *const t = fresh(4, fptu_space(4, 8 + 12 + 12));
  NEED(store(INSERT, k, t, 6, make(k, 1)) == FPTU_OK);
  NEED(fptu_insert_uint64(t, 3, 0x0123456789abcdef) == FPTU_OK);
  NEED(fptu_insert_string(t, 4, "neighbour", 9) == FPTU_OK);
  const account a(t);
  const how h = vp_enum("upsert", 0, 1) ? UPSERT : UPDATE;
  vp_assert(store(h, k, t, 6, make(k, 9)) == FPTU_ENOSPACE, "without room growing is refused");
  unchanged(t, a);
  int error = 1;
  vp_assert(reads(k, fptu_take_noshrink(t), 6, make(k, 1), &error) && error == FPTU_OK, "the value stays as it was");
}
VP_OBLIGATION(ob_too_long) {
  const kind k = vp_enum("opaque", 0, 1) ? K_opaque : K_string;
  fptu_rw *const t = with_two();
  const account a(t);
  val v = make(k, 1);
  v.n = vp_u("length", 0x40000, UINT64_MAX >> 1);
  const how h = vp_enum("upsert", 0, 1) ? UPSERT : INSERT;
  vp_assert(store(h, k, t, 6, v) == FPTU_EINVAL, "a value beyond the limit is refused");
  unchanged(t, a);
}
VP_OBLIGATION(ob_bad_nested) {
  fptu_rw *const t = with_two();
  const account a(t);
  uint32_t *const bytes = static_cast<uint32_t *>(vp_alloc(16, 0, "nested"));
  bytes[0] = uint32_t(vp_enum("units", 0, 5)) | uint32_t(vp_enum("fields", 0, 3)) << 19;
  bytes[1] = 0x48050003; /* u32 #5 beyond the end */
  bytes[2] = bytes[3] = 0;
  val v = make(K_nested, 1);
  v.ro.sys.iov_base = bytes;
  v.ro.sys.iov_len = size_t(vp_enum("length", 0, 16));
  vp_assume(fptu_check_ro(v.ro) != nullptr);
  const how h = vp_enum("upsert", 0, 1) ? UPSERT : INSERT;
  vp_assert(store(h, K_nested, t, 6, v) == FPTU_EINVAL, "a malformed nested tuple is refused");
  unchanged(t, a);
}
VP_OBLIGATION(ob_hollow) {
  /* an envelope whose size disagrees with its header */
  const kind k = any_kind();
  uint32_t *const bytes = static_cast<uint32_t *>(vp_alloc(16, 0, "envelope"));
  const unsigned units = unsigned(vp_enum("units", 0, 5));
  bytes[0] = units | 1u << 19;
  fptu_ro r;
  r.sys.iov_base = bytes;
  r.sys.iov_len = size_t(vp_enum("length", 0, 16));
  vp_assume(r.sys.iov_len != units * 4 || units == 0);
  int error = 0;
  vp_assert(defaults(k, r, 5, &error) && error != FPTU_OK, "reading from a malformed envelope is refused");
  vp_assert(fptu_is_empty_ro(r) && fptu_begin_ro(r) == fptu_end_ro(r), "a malformed envelope has no fields");
  vp_assert(fptu_field_count_ro(r, 5, T(k)) == 0 && fptu_lookup_ro(r, 5, T(k)) == nullptr, "nothing is found in it");
  vp_assert(fptu_check_ro(r) != nullptr, "and the check refuses it");
}
/* every small buffer, those around the needed size and around the limit */
static inline uint64_t buffer_size(size_t need) {
  const int64_t i = vp_enum("bytes", 0, 69);
  return i < 64 ? uint64_t(i) : i == 64 ? need - 1 : i == 65 ? need : i == 66 ? need + 4 : i == 67 ? fptu_buffer_limit : i == 68 ? fptu_buffer_limit + 1 : vp_u("beyond", 600001, UINT64_MAX);
}
VP_OBLIGATION(ob_init) {
  const size_t items = size_t(vp_enum("items", 0, 3)) * 2730;
  const size_t need = fptu_space(items, 0);
  const uint64_t bytes = buffer_size(need);
  void *const space = vp_alloc(bytes > 600000 ? 600000 : bytes, 0, "space");
  fptu_rw *const t = fptu_init(space, bytes, items);
  vp_assert((t != nullptr) == (bytes >= need && bytes <= fptu_buffer_limit), "a tuple is made in exactly the buffers of a suitable size");
  if (t == nullptr)
    return;
  vp_assert(fptu_space4items(t) == items && fptu_is_empty_rw(t) && fptu_junkspace(t) == 0, "a new tuple is empty with the room asked for");
}
VP_OBLIGATION(ob_init_bad) {
  vp_assert(fptu_init(nullptr, 1024, 4) == nullptr, "no buffer, no tuple");
  void *const space = vp_alloc(1024, 0, "space");
  vp_assert(fptu_init(space, 1024, size_t(vp_u("items", fptu_max_fields + 1, UINT64_MAX))) == nullptr, "too many fields, no tuple");
  vp_assert(fptu_alloc(size_t(vp_u("items", fptu_max_fields + 1, UINT64_MAX)), 8) == nullptr, "too many fields, no tuple");
  vp_assert(fptu_alloc(8, size_t(vp_u("bytes", fptu_max_tuple_bytes, UINT64_MAX))) == nullptr, "too much data, no tuple");
}
VP_OBLIGATION(ob_alloc) {
  const uint64_t heap = vp_heap();
  const size_t items = size_t(vp_enum("items", 0, 2)), bytes = size_t(vp_enum("bytes", 0, 9));
  if (vp_enum("no memory", 0, 1)) {
    vp_nomem(true);
    vp_assert(fptu_alloc(items, bytes) == nullptr, "no memory, no tuple");
    return;
  }
  fptu_rw *const t = fptu_alloc(items, bytes);
  vp_assert(t != nullptr, "a tuple is allocated");
  vp_assert(fptu_space4items(t) == items && fptu_space4data(t) >= bytes && fptu_is_empty_rw(t), "with the room asked for");
  for (size_t i = 0; i < items; ++i)
    vp_assert(fptu_insert_uint16(t, 1, 7) == FPTU_OK, "the room can be used");
  fptu_destroy(t);
  vp_assert(vp_heap() == heap, "destroying releases the memory");
}
VP_OBLIGATION(ob_fetch_bad) {
  fptu_rw *const t = with_two();
  const fptu_ro r = fptu_take_noshrink(t);
  const size_t need = fptu_get_buffer_size(r, 1, 0);
  const uint64_t bytes = buffer_size(need);
  void *const space = vp_alloc(bytes > 600000 ? 600000 : bytes, 0, "space");
  fptu_cbfs_result cbfs;
  NEED(fptu_check_and_get_buffer_size_ex(r, 1, 0, &cbfs) == need);
  fptu_rw *const c = vp_enum("ex", 0, 1) ? fptu_fetch_ex(r, space, bytes, 1, &cbfs) : fptu_fetch(r, space, bytes, 1);
  vp_assert((c != nullptr) == (bytes >= need && bytes <= fptu_buffer_limit), "a copy is made in exactly the buffers of a suitable size");
}
VP_OBLIGATION(ob_estimate_bad) {
  fptu_rw *const t = with_two();
  const fptu_ro r = fptu_take_noshrink(t);
  const unsigned items = unsigned(vp_u("items", 0, UINT32_MAX)), bytes = unsigned(vp_u("bytes", 0, UINT32_MAX));
  VP_CELLS_U(items, fptu_max_fields, fptu_max_fields + 1);
  VP_CELLS_U(bytes, fptu_max_tuple_bytes - 4, fptu_max_tuple_bytes - 3, fptu_max_tuple_bytes - 2, fptu_max_tuple_bytes);
  const char *error = "";
  fptu_cbfs_result cbfs;
  const size_t a = fptu_get_buffer_size(r, items, bytes), b = fptu_check_and_get_buffer_size(r, items, bytes, &error), c = fptu_check_and_get_buffer_size_ex(r, items, bytes, &cbfs);
  const bool fits = items <= fptu_max_fields && bytes <= fptu::max_tuple_bytes_netto;
  vp_assert((a != 0) == fits && (b != 0) == fits && (c != 0) == fits, "an estimate is refused exactly when too much is asked for");
  vp_assert((error == nullptr) == fits && (cbfs.err == FPTU_OK) == fits, "and the reason is given");
  vp_assert(!fits || (a == b && b == c), "the three estimates agree");
}
VP_OBLIGATION(ob_check_bad) {
  uint32_t *const bytes = static_cast<uint32_t *>(vp_alloc(16, 0, "envelope"));
  const unsigned units = unsigned(vp_enum("units", 0, 5));
  bytes[0] = units | 1u << 19;
  bytes[1] = 0x48050003;
  fptu_ro r;
  r.sys.iov_base = bytes;
  r.sys.iov_len = size_t(vp_enum("length", 1, 16));
  vp_assume(fptu_check_ro(r) != nullptr);
  const char *error = nullptr;
  fptu_cbfs_result cbfs = {};
  vp_assert(fptu_check_and_get_buffer_size(r, 1, 8, &error) == 0 && error != nullptr, "malformed bytes give no estimate");
  vp_assert(fptu_check_and_get_buffer_size_ex(r, 1, 8, &cbfs) == 0 && cbfs.err != FPTU_OK, "malformed bytes give no estimate");
  void *const space = vp_alloc(1024, 0, "space");
  vp_assert(fptu_fetch_ex(r, space, 1024, 1, &cbfs) == nullptr && fptu_fetch_ex(r, space, 1024, 1, nullptr) == nullptr, "and can not be fetched");
  vp_assert(fptu_fetch(r, nullptr, 1024, 1) == nullptr, "no buffer, no copy");
}
VP_OBLIGATION(ob_no_memory_text) {
  /* a text without a terminator of its own has to be copied */
  fptu_rw *const t = with_two();
  const size_t n = size_t(vp_enum("length", 1, 24));
  const char *const p = static_cast<char *>(vp_alloc(64, 0, "text"));
  NEED(fptu_insert_string(t, 6, p, n) == FPTU_OK);
  const fptu_field *const pf = fptu_lookup_rw(t, 6, T(K_string));
  vp_nomem(true);
  const char *const s = fptu_field_cstr(pf);
  vp_assert(s == nullptr ? fptu_last_error_code() == FPTU_ENOMEM : same(s, p, n) && s[n] == 0, "a text is returned whole or the lack of memory is reported");
}
