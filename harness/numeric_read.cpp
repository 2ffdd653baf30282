/* Reading numbers: exactly what is stored, or a refusal; for tuples under
 * construction, for read-only tuples and for preplaced and loose fields. */
#include "common.h"
using namespace fptu;
using namespace fptu::details;

enum where_t { RW, RO };
static const unsigned ID = 7;

struct pair_t {
  tuple_rw *rw;
  const tuple_ro *ro;
};

/* a tuple which holds one field with 64 arbitrary bits (or fewer) */
static tuple_rw *fresh() {
  void *space = vp_alloc(512, 0, "space");
  return tuple_rw::create_legacy(space, 512, 8);
}

static bool is_sgn(genus g) { return g == i8 || g == i16 || g == i32 || g == i64; }
static bool is_uns(genus g) { return g == u8 || g == u16 || g == u32 || g == u64; }

static int64_t value_of(genus g, bool &neg) {
  int64_t v;
  switch (g) {
  case i8: v = vp_i("value", -128, 127); break;
  case i16: v = vp_i("value", -32768, 32767); break;
  case i32: v = vp_i("value", INT32_MIN, INT32_MAX); break;
  case i64: v = vp_i("value", INT64_MIN, INT64_MAX); break;
  case u8: v = int64_t(vp_u("value", 0, 255)); break;
  case u16: v = int64_t(vp_u("value", 0, 65535)); break;
  case u32: v = int64_t(vp_u("value", 0, UINT32_MAX)); break;
  default: v = int64_t(vp_u("value", 0, UINT64_MAX)); break;
  }
  if (is_sgn(g))
    VP_CELLS_I(v, INT64_MIN, -0x20000000000000LL, -0x1FFFFFFFFFFFFFLL, -1, 0, 0x1FFFFFFFFFFFFFLL, 0x20000000000000LL, INT64_MAX);
  else
    VP_CELLS_U(uint64_t(v), 0, 0x1FFFFFFFFFFFFFLL, 0x20000000000000LL, INT64_MAX, uint64_t(1) << 63, UINT64_MAX);
  neg = is_sgn(g) && v < 0;
  return v;
}

static void store(tuple_rw *t, const token &k, genus g, int64_t v) {
  switch (g) {
  case i8: t->set_i8(k, int8_t(v)); break;
  case i16: t->set_i16(k, int16_t(v)); break;
  case i32: t->set_i32(k, int32_t(v)); break;
  case i64: t->set_i64(k, v); break;
  case u8: t->set_u8(k, uint8_t(v)); break;
  case u16: t->set_u16(k, uint16_t(v)); break;
  case u32: t->set_u32(k, uint32_t(v)); break;
  default: t->set_u64(k, uint64_t(v)); break;
  }
}

template <typename T> static void check_int_getters(const T *t, const token &k, genus g, int64_t v, bool neg) {
  {
    int64_t got = 0;
    OUTCOME(r, got = t->get_integer(k));
    if (is_sgn(g)) {
      vp_assert(r == OK, "the integer getter takes any signed integer field");
      vp_assert(got == v, "the integer getter returns the stored value");
    } else
      vp_assert(r == MISMATCH, "the integer getter refuses another type");
  }
  {
    uint64_t got = 0;
    OUTCOME(r, got = t->get_unsigned(k));
    if (is_uns(g)) {
      vp_assert(r == OK, "the unsigned getter takes any unsigned integer field");
      vp_assert(got == uint64_t(v), "the unsigned getter returns the stored value");
    } else
      vp_assert(r == MISMATCH, "the unsigned getter refuses another type");
  }
  {
    int128_t got = 0;
    OUTCOME(r, got = t->get_int128(k));
    if (is_sgn(g)) {
      vp_assert(r == OK, "the int128 getter takes any signed integer field");
      vp_assert(got == int128_t(v), "the int128 getter returns the stored value");
    } else
      vp_assert(r == MISMATCH, "the int128 getter refuses another type");
  }
  {
    uint128_t got = 0;
    OUTCOME(r, got = t->get_uint128(k));
    if (is_uns(g)) {
      vp_assert(r == OK, "the uint128 getter takes any unsigned integer field");
      vp_assert(got == uint128_t(uint64_t(v)), "the uint128 getter returns the stored value");
    } else
      vp_assert(r == MISMATCH, "the uint128 getter refuses another type");
  }
  {
    OUTCOME(r, t->get_float(k));
    vp_assert(r == MISMATCH, "the float getter refuses an integer field");
  }
  {
    double got = 0;
    OUTCOME(r, got = t->get_number_as_ieee754double(k));
    const bool safe = is_sgn(g) ? v >= -0x1FFFFFFFFFFFFFLL && v <= 0x1FFFFFFFFFFFFFLL : uint64_t(v) <= 0x1FFFFFFFFFFFFFULL;
    if (safe) {
      vp_assert(r == OK, "an exactly representable integer is readable as double");
      if (is_sgn(g))
        vp_assert(got == double(v), "the double equals the stored integer");
      else
        vp_assert(got == double(uint64_t(v)), "the double equals the stored integer");
    } else if (r == OK) {
      if (is_sgn(g))
        vp_assert(v >= -0x20000000000000LL && v <= 0x20000000000000LL && got == double(v), "an integer not exact in binary64 is refused");
      else
        vp_assert(uint64_t(v) <= 0x20000000000000ULL && got == double(uint64_t(v)), "an integer not exact in binary64 is refused");
    } else
      vp_assert(r == RANGE, "refused with value_range");
  }
}

static genus int_genus() {
  const genus g = genus(vp_enum("genus", i8, u64));
  vp_assume(is_sgn(g) || is_uns(g));
  return g;
}

VP_OBLIGATION(ob_read_int_rw) {
  const genus g = int_genus();
  const token k(g, ID, false, true, false);
  tuple_rw *t = fresh();
  bool neg;
  const int64_t v = value_of(g, neg);
  store(t, k, g, v);
  check_int_getters(t, k, g, v, neg);
}
VP_OBLIGATION(ob_read_int_ro) {
  const genus g = int_genus();
  const token k(g, ID, false, true, false);
  tuple_rw *t = fresh();
  bool neg;
  const int64_t v = value_of(g, neg);
  store(t, k, g, v);
  check_int_getters(t->take_asis(), k, g, v, neg);
}

/* the exact getter of a type returns what is stored and refuses every other type */
#define EXACT(T, KK, G, GET, EXPR)                                             \
  do {                                                                         \
    OUTCOME(r, EXPR);                                                          \
    if ((KK).type() == G)                                                      \
      vp_assert(r == OK, #GET " takes its own type");                          \
    else                                                                       \
      vp_assert(r == MISMATCH, #GET " refuses another type");                  \
  } while (0)

template <typename T> static void exact(const T *t, const token &k, genus g, int64_t v) {
  int64_t got = 0;
  EXACT(t, k, i8, get_i8, got = t->get_i8(k));
  EXACT(t, k, i16, get_i16, got = t->get_i16(k));
  EXACT(t, k, i32, get_i32, got = t->get_i32(k));
  EXACT(t, k, i64, get_i64, got = t->get_i64(k));
  EXACT(t, k, u8, get_u8, got = t->get_u8(k));
  EXACT(t, k, u16, get_u16, got = t->get_u16(k));
  EXACT(t, k, u32, get_u32, got = t->get_u32(k));
  EXACT(t, k, u64, get_u64, got = int64_t(t->get_u64(k)));
  vp_assert(got == v, "the getter of the field's own type returns the stored value");
}
VP_OBLIGATION(ob_read_exact_rw) {
  const genus g = int_genus();
  const token k(g, ID, false, true, false);
  tuple_rw *t = fresh();
  bool neg;
  const int64_t v = value_of(g, neg);
  store(t, k, g, v);
  exact(t, k, g, v);
}
VP_OBLIGATION(ob_read_exact_ro) {
  const genus g = int_genus();
  const token k(g, ID, false, true, false);
  tuple_rw *t = fresh();
  bool neg;
  const int64_t v = value_of(g, neg);
  store(t, k, g, v);
  exact(t->take_asis(), k, g, v);
}

template <typename T> static void floats(const T *t, const token &k, genus g, double v) {
  {
    double got = 0;
    OUTCOME(r, got = t->get_number_as_ieee754double(k));
    vp_assert(r == OK && got == v, "a stored float is read back as double unchanged");
  }
  {
    double got = 0;
    OUTCOME(r, got = t->get_float(k));
    vp_assert(r == OK && got == v, "the float getter returns the stored value");
  }
  {
    double got = 0;
    OUTCOME(r, got = t->get_f32(k));
    if (g == f32)
      vp_assert(r == OK && got == v, "the f32 getter returns the stored value");
    else
      vp_assert(r == MISMATCH, "the f32 getter refuses a f64 field");
  }
  {
    double got = 0;
    OUTCOME(r, got = t->get_f64(k));
    if (g == f64)
      vp_assert(r == OK && got == v, "the f64 getter returns the stored value");
    else
      vp_assert(r == MISMATCH, "the f64 getter refuses a f32 field");
  }
  {
    OUTCOME(r, t->get_integer(k));
    vp_assert(r == MISMATCH, "the integer getter refuses a float field");
  }
  {
    OUTCOME(r, t->get_unsigned(k));
    vp_assert(r == MISMATCH, "the unsigned getter refuses a float field");
  }
}
VP_OBLIGATION(ob_read_f64) {
  const token k(f64, ID, false, true, false);
  tuple_rw *t = fresh();
  const double v = vp_f("value", -1.7976931348623157e308, 1.7976931348623157e308);
  t->set_f64(k, v);
  floats(t, k, f64, v);
  floats(t->take_asis(), k, f64, v);
}
VP_OBLIGATION(ob_read_f32) {
  const token k(f32, ID, false, true, false);
  tuple_rw *t = fresh();
  const float v = vp_f32("value", -3.4028234663852886e38f, 3.4028234663852886e38f);
  t->set_f32(k, v);
  floats(t, k, f32, v);
  floats(t->take_asis(), k, f32, v);
}

/* fields of other types are refused by every numeric getter */
VP_OBLIGATION(ob_read_mismatch) {
  const genus g = genus(vp_enum("genus", 0, 30));
  vp_assume(!is_sgn(g) && !is_uns(g) && g != f32 && g != f64);
  const token k(g, ID, false, true, false);
  tuple_rw *t = fresh();
#define REFUSED(GET)                                                           \
  do {                                                                         \
    OUTCOME(r, t->GET(k));                                                     \
    vp_assert(r == MISMATCH, #GET " refuses a non-numeric field");             \
  } while (0)
  REFUSED(get_integer);
  REFUSED(get_unsigned);
  REFUSED(get_float);
  REFUSED(get_number_as_ieee754double);
  REFUSED(get_i8);
  REFUSED(get_u8);
  REFUSED(get_i16);
  REFUSED(get_u16);
  REFUSED(get_i32);
  REFUSED(get_u32);
  REFUSED(get_i64);
  REFUSED(get_u64);
  REFUSED(get_f32);
  REFUSED(get_f64);
}
