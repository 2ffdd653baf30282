/* uniform access to the C interface: every kind of field, two values of each */
#pragma once
#include "common.h"
#include "fast_positive/tuples/details/legacy_compat.h"
enum kind { K_uint16, K_bool, K_int32, K_uint32, K_int64, K_uint64, K_fp64, K_fp32, K_datetime, K_96, K_128, K_160, K_256, K_string, K_opaque, K_nested, KINDS };
static const fptu_type ktype[KINDS] = {fptu_uint16, fptu_bool, fptu_int32, fptu_uint32, fptu_int64, fptu_uint64, fptu_fp64, fptu_fp32, fptu_datetime, fptu_96, fptu_128, fptu_160, fptu_256, fptu_cstr, fptu_opaque, fptu_nested};
/* which kinds a filter takes */
static const bool kint[KINDS] = {1, 1, 1, 1, 1, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0};
static const bool kfp[KINDS] = {0, 0, 0, 0, 0, 0, 1, 1, 0, 0, 0, 0, 0, 0, 0, 0};

struct val {
  uint64_t u;
  double f;
  const char *p;
  size_t n;
  fptu_ro ro;
};
enum how { UPSERT, INSERT, UPDATE };
#define VP_SCALARS(X) X(uint16, uint16_t, u) X(bool, bool, u) X(int32, int32_t, u) X(uint32, uint32_t, u) X(int64, int64_t, u) X(uint64, uint64_t, u) X(fp64, double, f) X(fp32, float, f)
#define VP_CBINS(X) X(96) X(128) X(160) X(256)
static inline fptu_error store(how h, kind k, fptu_rw *t, unsigned col, const val &v) {
  switch (k) {
#define X(N, T, M) case K_##N: return h == UPSERT ? fptu_upsert_##N(t, col, T(v.M)) : h == INSERT ? fptu_insert_##N(t, col, T(v.M)) : fptu_update_##N(t, col, T(v.M));
  VP_SCALARS(X)
#undef X
  case K_datetime: {
    const fptu_datetime_t x = fptu::datetime_t::from_fixedpoint_32dot32(v.u);
    return h == UPSERT ? fptu_upsert_datetime(t, col, x) : h == INSERT ? fptu_insert_datetime(t, col, x) : fptu_update_datetime(t, col, x);
  }
#define X(N) case K_##N: return h == UPSERT ? fptu_upsert_##N(t, col, v.p) : h == INSERT ? fptu_insert_##N(t, col, v.p) : fptu_update_##N(t, col, v.p);
  VP_CBINS(X)
#undef X
  case K_string: return h == UPSERT ? fptu_upsert_string(t, col, v.p, v.n) : h == INSERT ? fptu_insert_string(t, col, v.p, v.n) : fptu_update_string(t, col, v.p, v.n);
  case K_opaque: return h == UPSERT ? fptu_upsert_opaque(t, col, v.p, v.n) : h == INSERT ? fptu_insert_opaque(t, col, v.p, v.n) : fptu_update_opaque(t, col, v.p, v.n);
  case K_nested: return h == UPSERT ? fptu_upsert_nested(t, col, v.ro) : h == INSERT ? fptu_insert_nested(t, col, v.ro) : fptu_update_nested(t, col, v.ro);
  default: __builtin_unreachable();
  }
}
static inline bool same(const void *a, const void *b, size_t n) {
  if (a == nullptr)
    return false;
  for (size_t i = 0; i < n; ++i)
    if (static_cast<const char *>(a)[i] != static_cast<const char *>(b)[i])
      return false;
  return true;
}
static inline bool same_ro(fptu_ro r, const val &v) { return r.sys.iov_len == v.ro.sys.iov_len && same(r.sys.iov_base, v.ro.sys.iov_base, v.ro.sys.iov_len); }
/* does the named getter give exactly this value? */
static inline bool reads(kind k, fptu_ro r, unsigned col, const val &v, int *error) {
  switch (k) {
#define X(N, T, M) case K_##N: return fptu_get_##N(r, col, error) == T(v.M);
  VP_SCALARS(X)
#undef X
  case K_datetime: return fptu_get_datetime(r, col, error).fixedpoint == v.u;
#define X(N) case K_##N: return same(fptu_get_##N(r, col, error), v.p, N / 8);
  VP_CBINS(X)
#undef X
  case K_string: {
    const char *const s = fptu_get_cstr(r, col, error);
    return v.n == 0 ? s == nullptr || *s == 0 : same(s, v.p, v.n) && s[v.n] == 0;
  }
  case K_opaque: {
    const iovec x = fptu_get_opaque(r, col, error);
    return x.iov_len == v.n && (v.n == 0 || same(x.iov_base, v.p, v.n));
  }
  case K_nested: return same_ro(fptu_get_nested(r, col, error), v);
  default: __builtin_unreachable();
  }
}
static inline bool field_reads(kind k, const fptu_field *pf, const val &v) {
  switch (k) {
#define X(N, T, M) case K_##N: return fptu_field_##N(pf) == T(v.M);
  VP_SCALARS(X)
#undef X
  case K_datetime: return fptu_field_datetime(pf).fixedpoint == v.u;
#define X(N) case K_##N: return same(fptu_field_##N(pf), v.p, N / 8);
  VP_CBINS(X)
#undef X
  case K_string: {
    const char *const s = fptu_field_cstr(pf);
    return v.n == 0 ? s == nullptr || *s == 0 : same(s, v.p, v.n) && s[v.n] == 0;
  }
  case K_opaque: {
    const iovec x = fptu_field_opaque(pf);
    return x.iov_len == v.n && (v.n == 0 || same(x.iov_base, v.p, v.n));
  }
  case K_nested: return same_ro(fptu_field_nested(pf), v);
  default: __builtin_unreachable();
  }
}
static inline fptu_rw *fresh(size_t items = 10, size_t bytes = 1024) {
  return fptu_init(vp_alloc(bytes, 0, "space"), bytes, items);
}
static inline fptu_ro nest(unsigned n) {
  fptu_rw *const t = fresh(4, 256);
  for (unsigned i = 0; i < n; ++i)
    fptu_insert_uint32(t, 5 + i, 0x1000 + i);
  return fptu_take_noshrink(t);
}
/* which: 0 arbitrary, others given (all different) */
static inline val make(kind k, unsigned which) {
  val v;
  v.u = which;
  v.f = which + 0.5;
  v.n = 3 + which * 3;
  char *const p = static_cast<char *>(vp_alloc(64, 0, "value"));
  v.p = p;
  if (which)
    for (unsigned i = 0; i < 64; ++i)
      p[i] = char('a' + which);
  v.ro.sys.iov_base = nullptr;
  v.ro.sys.iov_len = 0;
  switch (k) {
  case K_bool: v.u = which ? which & 1 : uint64_t(vp_enum("value", 0, 1)); break;
  case K_uint16: if (!which) v.u = vp_u("value", 0, 0xffff); break;
  case K_int32: if (!which) v.u = uint64_t(vp_i("value", INT32_MIN, INT32_MAX)); break;
  case K_uint32: if (!which) v.u = vp_u("value", 0, UINT32_MAX); break;
  case K_int64: if (!which) v.u = uint64_t(vp_i("value", INT64_MIN, INT64_MAX)); break;
  case K_uint64: case K_datetime: if (!which) v.u = vp_u("value", 0, UINT64_MAX); break;
  case K_fp64: if (!which) v.f = vp_f("value", -1e300, 1e300); break;
  case K_fp32: if (!which) v.f = vp_f32("value", -1e30f, 1e30f); break;
  case K_nested: v.ro = nest(which); break;
  case K_string: case K_opaque: if (!which) v.n = size_t(vp_enum("length", 0, 9)); break;
  default: break;
  }
  return v;
}
#define NEED(C) vp_assert(C, #C)
