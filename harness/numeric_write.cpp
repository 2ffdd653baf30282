/* Writing numbers into fields: exactly stored or refused. */
#include "common.h"
using namespace fptu;
using namespace fptu::details;

enum api { INS, SET };

static tuple_rw *fresh() {
  void *space = vp_alloc(512, 0, "space");
  return tuple_rw::create_legacy(space, 512, 8);
}

template <typename V> struct call_integer {
  static void ins(tuple_rw *t, const token &k, V v) { t->insert_integer(k, v); }
  static void set(tuple_rw *t, const token &k, V v) { t->set_integer(k, v); }
  static bool takes(genus g) { return g == i8 || g == i16 || g == i32 || g == i64; }
};
template <typename V> struct call_unsigned {
  static void ins(tuple_rw *t, const token &k, V v) { t->insert_unsigned(k, v); }
  static void set(tuple_rw *t, const token &k, V v) { t->set_unsigned(k, v); }
  static bool takes(genus g) { return g == u8 || g == u16 || g == u32 || g == u64; }
};
template <typename V> struct call_number {
  static void ins(tuple_rw *t, const token &k, V v) { t->insert_number(k, v); }
  static void set(tuple_rw *t, const token &k, V v) { t->set_number(k, v); }
  static bool takes(genus g) {
    return g == i8 || g == i16 || g == i32 || g == i64 || g == u8 || g == u16 ||
           g == u32 || g == u64 || g == f32 || g == f64;
  }
};

/* range of an integer genus, as int128 */
static bool int_range(genus g, __int128 &lo, __int128 &hi) {
  switch (g) {
  case i8: lo = -128, hi = 127; return true;
  case i16: lo = -32768, hi = 32767; return true;
  case i32: lo = -2147483647LL - 1, hi = 2147483647; return true;
  case i64: lo = INT64_MIN, hi = INT64_MAX; return true;
  case u8: lo = 0, hi = 255; return true;
  case u16: lo = 0, hi = 65535; return true;
  case u32: lo = 0, hi = 4294967295LL; return true;
  case u64: lo = 0, hi = UINT64_MAX; return true;
  default: return false;
  }
}

static __int128 read_int(tuple_rw *t, const token &k, genus g) {
  switch (g) {
  case i8: return t->get_i8(k);
  case i16: return t->get_i16(k);
  case i32: return t->get_i32(k);
  case i64: return t->get_i64(k);
  case u8: return t->get_u8(k);
  case u16: return t->get_u16(k);
  case u32: return t->get_u32(k);
  default: return t->get_u64(k);
  }
}

template <typename CALL, typename V>
static inline void check_int(api how, V v) {
  const genus g = genus(vp_enum("genus", 0, 30));
  const token k(g, 7, how == INS, true, false);
  const token rk(g, 7, false, true, false);
  tuple_rw *t = fresh();
  const unsigned head = t->head_, tail = t->tail_;
  OUTCOME(r, how == INS ? CALL::ins(t, k, v) : CALL::set(t, k, v));
  if (!CALL::takes(g)) {
    if (CALL::takes(i64) != CALL::takes(u64) && (__int128(v) < 0 || __int128(v) > INT64_MAX))
      vp_assert(r == RANGE || r == MISMATCH, "a number is refused for a non-numeric field");
    else
      vp_assert(r == MISMATCH, "a number is refused with type mismatch for a field of another type");
    vp_assert(t->head_ == head && t->tail_ == tail, "a refused write leaves the tuple as it was");
    return;
  }
  __int128 lo, hi;
  if (int_range(g, lo, hi)) {
    if (__int128(v) < lo || __int128(v) > hi) {
      vp_assert(r == RANGE, "a value outside of the field's range is refused with value_range");
      vp_assert(t->head_ == head && t->tail_ == tail, "a refused write leaves the tuple as it was");
    } else {
      vp_assert(r == OK, "a value inside of the field's range is accepted");
      vp_assert(read_int(t, rk, g) == __int128(v), "the stored value equals the written one");
    }
    return;
  }
  /* f32, f64 */
  if (g == f32) {
    if (r == OK) {
      vp_assert(__int128(v) >= -(1 << 24) && __int128(v) <= (1 << 24), "only integers exact in binary32 are stored as f32");
      vp_assert(t->get_f32(rk) == static_cast<float>(v), "the stored f32 equals the integer");
    } else {
      vp_assert(r == RANGE, "refused with value_range");
      vp_assert(__int128(v) < -0x1FFFFF || __int128(v) > 0x1FFFFF, "a safe integer is accepted for f32");
    }
  } else {
    if (r == OK) {
      vp_assert(__int128(v) >= -(1LL << 53) && __int128(v) <= (1LL << 53), "only integers exact in binary64 are stored as f64");
      vp_assert(t->get_f64(rk) == static_cast<double>(v), "the stored f64 equals the integer");
    } else {
      vp_assert(r == RANGE, "refused with value_range");
      vp_assert(__int128(v) < -0x1FFFFFFFFFFFFFLL || __int128(v) > 0x1FFFFFFFFFFFFFLL, "a safe integer is accepted for f64");
    }
  }
}

static int64_t any_i64() {
  int64_t v = vp_i("value", INT64_MIN, INT64_MAX);
  VP_CELLS_I(v, INT64_MIN, -0x20000000000000LL, -0x1FFFFFFFFFFFFFLL, -2147483649LL, -2147483648LL, -16777217, -16777216, -0x200000, -0x1FFFFF, -32769, -32768, -129, -128, -1, 0, 127, 128, 255, 256, 32767, 32768, 65535, 65536, 0x1FFFFF, 0x200000, 16777216, 16777217, 2147483647LL, 2147483648LL, 4294967295LL, 4294967296LL, 0x1FFFFFFFFFFFFFLL, 0x20000000000000LL, INT64_MAX);
  return v;
}
static uint64_t any_u64() {
  uint64_t v = vp_u("value", 0, UINT64_MAX);
  VP_CELLS_U(v, 0, 127, 128, 255, 256, 32767, 32768, 65535, 65536, 0x1FFFFF, 0x200000, 16777216, 16777217, 2147483647LL, 2147483648LL, 4294967295LL, 4294967296LL, 0x1FFFFFFFFFFFFFLL, 0x20000000000000LL, INT64_MAX, uint64_t(1) << 63, UINT64_MAX);
  return v;
}
static int32_t any_i32() {
  int64_t v = vp_i("value", INT32_MIN, INT32_MAX);
  VP_CELLS_I(v, INT32_MIN, -16777217, -16777216, -0x200000, -0x1FFFFF, -32769, -32768, -129, -128, -1, 0, 127, 128, 255, 256, 32767, 32768, 65535, 65536, 0x1FFFFF, 0x200000, 16777216, 16777217, INT32_MAX);
  return int32_t(v);
}
static uint32_t any_u32() {
  uint64_t v = vp_u("value", 0, UINT32_MAX);
  VP_CELLS_U(v, 0, 127, 128, 255, 256, 32767, 32768, 65535, 65536, 0x1FFFFF, 0x200000, 16777216, 16777217, 2147483647LL, 2147483648LL, UINT32_MAX);
  return uint32_t(v);
}

#define BOTH(NAME, CALL, V, ANY)                                               \
  VP_OBLIGATION(ob_insert_##NAME) { check_int<CALL<V>, V>(INS, ANY()); }       \
  VP_OBLIGATION(ob_set_##NAME) { check_int<CALL<V>, V>(SET, ANY()); }
BOTH(integer_i64, call_integer, int64_t, any_i64)
BOTH(integer_u64, call_integer, uint64_t, any_u64)
BOTH(unsigned_i64, call_unsigned, int64_t, any_i64)
BOTH(unsigned_u64, call_unsigned, uint64_t, any_u64)
BOTH(number_i32, call_number, int32_t, any_i32)
BOTH(number_u32, call_number, uint32_t, any_u32)
BOTH(number_i64, call_number, int64_t, any_i64)
BOTH(number_u64, call_number, uint64_t, any_u64)

/* ---- floating point sources ---- */
template <typename V> static inline void check_float(api how, V v) {
  const genus g = genus(vp_enum("genus", 0, 30));
  const token k(g, 7, how == INS, true, false);
  const token rk(g, 7, false, true, false);
  tuple_rw *t = fresh();
  const unsigned head = t->head_, tail = t->tail_;
  OUTCOME(r, how == INS ? call_number<V>::ins(t, k, v) : call_number<V>::set(t, k, v));
  if (!call_number<V>::takes(g)) {
    vp_assert(r == MISMATCH, "a number is refused with type mismatch for a field of another type");
    vp_assert(t->head_ == head && t->tail_ == tail, "a refused write leaves the tuple as it was");
    return;
  }
  double lo, hi;
  switch (g) {
  case i8: lo = -128, hi = 127; break;
  case i16: lo = -32768, hi = 32767; break;
  case i32: lo = -2147483647.0 - 1, hi = 2147483647.0; break;
  case u8: lo = 0, hi = 255; break;
  case u16: lo = 0, hi = 65535; break;
  case u32: lo = 0, hi = 4294967295.0; break;
  case i64: lo = -9223372036854775808.0, hi = 9223372036854774784.0; break;
  case u64: lo = 0, hi = 18446744073709549568.0; break;
  case f64:
    vp_assert(r == OK, "any real number is accepted by a f64 field");
    vp_assert(t->get_f64(rk) == double(v), "the stored f64 equals the written one");
    return;
  default: /* f32 */
    if (double(v) > 3.4028234663852886e38 || double(v) < -3.4028234663852886e38) {
      vp_assert(r == RANGE, "a number beyond binary32 is refused with value_range");
    } else {
      vp_assert(r == OK, "a number within binary32 is accepted by a f32 field");
      vp_assert(t->get_f32(rk) == float(v), "the stored f32 is the rounded value");
    }
    return;
  }
  if (double(v) < lo || double(v) > hi) {
    vp_assert(r == RANGE, "a number outside of the integer field's range is refused with value_range");
    vp_assert(t->head_ == head && t->tail_ == tail, "a refused write leaves the tuple as it was");
    return;
  }
  if (r == OK) {
    const __int128 got = read_int(t, rk, g);
    if (g == u64)
      vp_assert(uint64_t(got) == uint64_t(v), "the stored integer is the integral part of the number");
    else
      vp_assert(int64_t(got) == int64_t(v), "the stored integer is the integral part of the number");
  } else {
    vp_assert(r == RANGE, "refused with value_range");
    vp_assert((double(v) == lo || double(v) < lo + 1) && lo < 0, "a number strictly inside of the integer field's range is accepted");
  }
}
static double any_double() {
  double v = vp_f("value", -1.7976931348623157e308, 1.7976931348623157e308);
  VP_FCELLS(v, -1.7976931348623157e308, -3.4028234663852893e38, -3.4028234663852886e38, -9223372036854777856.0, -9223372036854775808.0, -9223372036854774784.0, -2147483649.0, -2147483648.0, -2147483647.0, -32769, -32768, -129, -128, -1, -0.5, 0, 0.5, 127, 127.5, 128, 255, 255.5, 256, 32767, 32768, 65535, 65535.5, 65536, 2147483647.0, 2147483648.0, 4294967295.0, 4294967296.0, 9223372036854774784.0, 9223372036854775808.0, 18446744073709549568.0, 18446744073709551616.0, 3.4028234663852886e38, 3.4028234663852893e38, 1.7976931348623157e308);
  return v;
}
static float any_float() {
  float v = vp_f32("value", -3.4028234663852886e38f, 3.4028234663852886e38f);
  VP_FCELLS(v, -3.4028234663852886e38, -9223373136366403584.0, -9223372036854775808.0, -9223371487098961920.0, -2147483904.0, -2147483648.0, -2147483520.0, -32769, -32768, -129, -128, -1, -0.5, 0, 0.5, 127, 128, 255, 256, 32767, 32768, 65535, 65536, 2147483520.0, 2147483648.0, 4294967040.0, 4294967296.0, 9223371487098961920.0, 9223372036854775808.0, 18446742974197923840.0, 18446744073709551616.0, 3.4028234663852886e38);
  return v;
}
VP_OBLIGATION(ob_insert_number_f64) { check_float<double>(INS, any_double()); }
VP_OBLIGATION(ob_set_number_f64) { check_float<double>(SET, any_double()); }
VP_OBLIGATION(ob_insert_number_f32) { check_float<float>(INS, any_float()); }
VP_OBLIGATION(ob_set_number_f32) { check_float<float>(SET, any_float()); }

static void check_setfloat(api how) {
  const genus g = genus(vp_enum("genus", 0, 30));
  const token k(g, 7, how == INS, true, false);
  const token rk(g, 7, false, true, false);
  tuple_rw *t = fresh();
  const double v = any_double();
  OUTCOME(r, how == INS ? (void)t->insert_float(k, v) : t->set_float(k, v));
  if (g == f64) {
    vp_assert(r == OK, "any real number is accepted by a f64 field");
    vp_assert(t->get_f64(rk) == v, "the stored f64 equals the written one");
    vp_assert(t->get_float(rk) == v, "the generic float getter returns it");
  } else if (g == f32) {
    if (v > 3.4028234663852886e38 || v < -3.4028234663852886e38)
      vp_assert(r == RANGE, "a number beyond binary32 is refused with value_range");
    else {
      vp_assert(r == OK, "a number within binary32 is accepted by a f32 field");
      vp_assert(t->get_f32(rk) == float(v), "the stored f32 is the rounded value");
    }
  } else
    vp_assert(r == MISMATCH, "a float is refused with type mismatch for a field of another type");
}
VP_OBLIGATION(ob_insert_float) { check_setfloat(INS); }
VP_OBLIGATION(ob_set_float) { check_setfloat(SET); }

/* ---- 128-bit sources ---- */
static void check_128(api how, bool sgn) {
  const genus g = genus(vp_enum("genus", 0, 30));
  const token k(g, 7, how == INS, true, false);
  const token rk(g, 7, false, true, false);
  tuple_rw *t = fresh();
  const uint64_t lo = sgn ? uint64_t(any_i64()) : any_u64();
  const uint64_t hi = vp_u("high", 0, UINT64_MAX);
  VP_CELLS_U(hi, 0, 1, INT64_MAX, uint64_t(1) << 63, UINT64_MAX);
  const unsigned __int128 u = (unsigned __int128)hi << 64 | lo;
  outcome r;
  if (sgn) {
    int128_t v = (int128_t)u;
    OUTCOME(q, how == INS ? (void)t->insert_int128(k, v) : t->set_int128(k, v));
    r = q;
  } else {
    uint128_t v = u;
    OUTCOME(q, how == INS ? (void)t->insert_uint128(k, v) : t->set_uint128(k, v));
    r = q;
  }
  if (g == bin128) {
    vp_assert(r == OK, "a 128-bit field takes any 128-bit integer");
    if (sgn)
      vp_assert(t->get_int128(rk) == (int128_t)u, "the stored 128-bit integer equals the written one");
    else
      vp_assert(t->get_uint128(rk) == u, "the stored 128-bit integer equals the written one");
    return;
  }
  const bool takes = sgn ? call_integer<int64_t>::takes(g) : call_unsigned<int64_t>::takes(g);
  const bool fits64 = sgn ? hi == ((lo >> 63) ? UINT64_MAX : 0) : hi == 0;
  if (!takes) {
    vp_assert(r == MISMATCH || r == RANGE, "a 128-bit integer is refused for a field of another type");
    return;
  }
  __int128 a, b;
  int_range(g, a, b);
  const __int128 v64 = sgn ? __int128(int64_t(lo)) : __int128(lo);
  if (!fits64 || v64 < a || v64 > b)
    vp_assert(r == RANGE, "a 128-bit integer outside of the field's range is refused with value_range");
  else {
    vp_assert(r == OK, "a 128-bit integer inside of the field's range is accepted");
    vp_assert(read_int(t, rk, g) == v64, "the stored value equals the written 128-bit integer");
  }
}
VP_OBLIGATION(ob_insert_int128) { check_128(INS, true); }
VP_OBLIGATION(ob_set_int128) { check_128(SET, true); }
VP_OBLIGATION(ob_insert_uint128) { check_128(INS, false); }
VP_OBLIGATION(ob_set_uint128) { check_128(SET, false); }
