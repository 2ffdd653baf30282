/* The C interface in several threads: readers leave shared memory alone, the last error belongs to its thread. */
#include "capi.h"
static fptu_rw *filled(kind k, const val &v) {
  fptu_rw *const t = fresh();
  store(INSERT, K_uint32, t, 1, make(K_uint32, 1));
  store(INSERT, k, t, 2, v);
  store(INSERT, k, t, 2, make(k, 2));
  store(INSERT, K_string, t, 3, make(K_string, 2));
  fptu_erase(t, 1, fptu_type_or_filter(fptu_any));
  return t;
}
static kind any() { return kind(vp_enum("kind", 0, KINDS - 1)); }
/* getters by column, present and absent, right and wrong type, with and without a place for the code */
VP_OBLIGATION(ob_c_get) {
  const kind k = any(), as = kind(vp_enum("as", 0, KINDS - 1));
  const val v = make(k, 1);
  const fptu_ro r = fptu_take_noshrink(filled(k, v));
  int error = 0;
  vp_share();
  if (vp_enum("absent", 0, 1))
    (void)reads(as, r, 9, v, vp_enum("code", 0, 1) ? &error : nullptr);
  else
    (void)reads(as, r, 2, v, vp_enum("code", 0, 1) ? &error : nullptr);
  vp_assert(fptu_check_ro(r) == nullptr, "well-formed as before");
}
/* getters by field, lookups, counting, traversal, checks */
VP_OBLIGATION(ob_c_field) {
  const kind k = any();
  const val v = make(k, 1);
  const fptu_rw *const t = filled(k, v);
  const fptu_ro r = fptu_take_noshrink(t);
  vp_share();
  unsigned n = 0;
  for (const fptu_field *f = fptu_first(fptu_begin_ro(r), fptu_end_ro(r), 2, fptu_type_or_filter(ktype[k])); f != fptu_end_ro(r); f = fptu_next(f, fptu_end_ro(r), 2, fptu_type_or_filter(ktype[k]))) {
    (void)field_reads(k, f, v);
    (void)fptu_field_type(f);
    (void)fptu_field_column(f);
    (void)fptu_field_as_iovec(f);
    (void)fptu_field_is_dead(f);
    ++n;
  }
  vp_assert(n == 2 && fptu_field_count_ro(r, 2, fptu_type_or_filter(fptu_any)) == 2, "both elements are found");
  vp_assert(fptu_lookup_ro(r, 2, fptu_type_or_filter(ktype[k])) != nullptr, "found");
  vp_assert(fptu_lookup_ro(r, 1, fptu_type_or_filter(fptu_any)) == nullptr, "not found");
  vp_assert(fptu_check_ro(r) == nullptr && fptu_check_rw(t) == nullptr, "well-formed");
  vp_assert(!fptu_is_empty_ro(r) && !fptu_is_empty_rw(t), "not empty");
  (void)fptu_space4items(t);
  (void)fptu_space4data(t);
  (void)fptu_junkspace(t);
  (void)fptu_check_and_get_buffer_size(r, 1, 1, nullptr);
  (void)fptu_get_buffer_size(r, 1, 1);
}
VP_OBLIGATION(ob_c_compare) {
  static const kind kinds[] = {K_96, K_128, K_160, K_256, K_opaque};
  const kind k = kinds[vp_enum("kind", 0, 4)];
  const val v = make(k, 1);
  const fptu_ro r = fptu_take_noshrink(filled(k, v));
  const uint8_t *const p = reinterpret_cast<const uint8_t *>(v.p);
  vp_share();
  switch (k) {
  case K_96: (void)fptu_cmp_96(r, 2, p); (void)fptu_cmp_96(r, 8, p); break;
  case K_128: (void)fptu_cmp_128(r, 2, p); break;
  case K_160: (void)fptu_cmp_160(r, 2, p); break;
  case K_256: (void)fptu_cmp_256(r, 2, p); break;
  default: (void)fptu_cmp_opaque(r, 2, v.p, 3); (void)fptu_cmp_opaque(r, 8, v.p, 3);
  }
  vp_assert(fptu_check_ro(r) == nullptr, "well-formed as before");
}
/* strings that need a terminator of their own */
VP_OBLIGATION(ob_c_cstr) {
  fptu_rw *const t = fresh();
  const val v = make(K_string, 2);
  fptu_insert_string(t, 2, v.p, size_t(vp_enum("length", 0, 8)));
  const fptu_ro r = fptu_take_noshrink(t);
  vp_share();
  (void)fptu_get_cstr(r, 2, nullptr);
  if (const fptu_field *const f = fptu_lookup_ro(r, 2, fptu_type_or_filter(fptu_cstr)))
    (void)fptu_field_cstr(f);
  vp_assert(fptu_check_ro(r) == nullptr, "well-formed as before");
}
/* a reader makes its own modifiable copy */
VP_OBLIGATION(ob_c_fetch) {
  const kind k = any();
  const val v = make(k, 1);
  const fptu_ro r = fptu_take_noshrink(filled(k, v));
  vp_share();
  void *const space = vp_alloc(1024, 0, "mine");
  fptu_rw *const mine = fptu_fetch(r, space, 1024, 3);
  if (mine) {
    fptu_erase(mine, 2, fptu_type_or_filter(fptu_any));
    (void)fptu_insert_uint32(mine, 7, 5);
  }
  vp_assert(fptu_field_count_ro(r, 2, fptu_type_or_filter(fptu_any)) == 2, "the original is as before");
}
/* failures: refused arguments leave their traces with the thread that made them */
VP_OBLIGATION(ob_c_fail) {
  vp_share();
  fptu_ro bad;
  bad.sys.iov_base = vp_alloc(16, 0, "junk");
  bad.sys.iov_len = 3;
  int error = 0;
  switch (vp_enum("how", 0, 5)) {
  case 0: (void)fptu_get_uint32(bad, 1, &error); break;
  case 1: (void)fptu_check_ro(bad); break;
  case 2: (void)fptu_init(nullptr, 0, 1); break;
  case 3: (void)fptu_alloc(1 << 20, 1); break;
  case 4: (void)fptu_lookup_ro(bad, 70000, fptu_type_or_filter(fptu_any)); break;
  default: (void)fptu_upsert_uint32(fresh(), 70000, 1);
  }
  vp_assert(fptu_last_error_code() != 12345, "there is a code");
}
/* the last error: what happens in one thread is not seen in another */
static void failing(void *) {
  vp_assert(fptu_last_error_code() == FPTU_OK, "a thread begins without an error");
  int error = 0;
  fptu_ro none;
  none.sys.iov_base = nullptr;
  none.sys.iov_len = 0;
  (void)fptu_get_uint32(none, 1, &error);
  vp_assert(error != FPTU_OK && fptu_last_error_code() == error, "its own failure");
}
VP_OBLIGATION(ob_c_last_error) {
  fptu_rw *const t = fresh();
  fptu_clear_error();
  const bool before = vp_enum("before", 0, 1) != 0;
  if (before) {
    const fptu_error e = fptu_upsert_uint32(t, 70000, 1);
    vp_assert(e != FPTU_OK && fptu_last_error_code() == e, "its own failure");
    vp_thread(failing, nullptr);
    vp_join();
    vp_assert(fptu_last_error_code() == e, "the last error of a thread outlives failures in others");
  } else {
    vp_thread(failing, nullptr);
    vp_join();
    vp_assert(fptu_last_error_code() == FPTU_OK, "no thread sees the errors of another");
  }
}
