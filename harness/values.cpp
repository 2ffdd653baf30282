/* Exact-type round trip of every fixed-size field type, loose and preplaced, in a tuple under construction and in a
   finished one; neighbours keep their values; a wrong type is refused and changes nothing. */
#include "fixture.h"

template <typename T> static T any_value() {
  T v;
  vp_bytes(&v, sizeof(T), "value");
  return v;
}
/* comparison word by word: no padding in the types used */
template <typename T> static bool bits(const T &a, const T &b) {
  const auto *x = reinterpret_cast<const uint8_t *>(&a), *y = reinterpret_cast<const uint8_t *>(&b);
  for (size_t i = 0; i < sizeof(T); ++i)
    if (!vp_same(x[i], y[i]))
      return false;
  return true;
}
template <typename T> static bool is_zero(const T &a) {
  const auto *x = reinterpret_cast<const uint8_t *>(&a);
  for (size_t i = 0; i < sizeof(T); ++i)
    if (x[i])
      return false;
  return true;
}

/* integers: value range symbolic, decisive points as cells of their own */
#define INT(NAME, T, G)                                                        \
  VP_OBLIGATION(ob_value_##NAME) {                                             \
    const int place = int(vp_enum("place", 0, 1));                             \
    const bool d = vp_enum("discernible", 0, 1);                               \
    fixture f = vp_make(place, G, d);                                          \
    const T v = T(std::is_signed<T>::value                                     \
                      ? vp_i("value", std::numeric_limits<T>::min(), std::numeric_limits<T>::max()) \
                      : (int64_t)vp_u("value", 0, std::numeric_limits<T>::max())); \
    if (std::is_signed<T>::value)                                              \
      VP_CELLS_I(int64_t(v), int64_t(std::numeric_limits<T>::min()), -1, 0, 1); \
    else                                                                       \
      VP_CELLS_U(uint64_t(v), 0, 1);                                           \
    const T denil = std::is_signed<T>::value ? std::numeric_limits<T>::min() : T(0); \
    /* NIL values are the matter of another property */                        \
    vp_assume(place && d ? v != denil : true);                                 \
    vp_assume(!place && !d ? v != 0 : true);                                   \
    if (vp_enum("overwrite", 0, 1))                                            \
      f.t->set_##NAME(f.k, T(0x55));                                           \
    f.t->set_##NAME(f.k, v);                                                   \
    vp_assert(f.t->get_##NAME(f.k) == v, "the value reads back");              \
    vp_neighbours(f, f.t);                                                     \
    const tuple_ro *ro = f.t->take_asis();                                     \
    vp_assert(ro->get_##NAME(f.k) == v, "the value reads back from the finished tuple"); \
    vp_neighbours(f, ro);                                                      \
  }
INT(i8, int8_t, i8)
INT(u8, uint8_t, u8)
INT(i16, int16_t, i16)
INT(u16, uint16_t, u16)
INT(i32, int32_t, i32)
INT(u32, uint32_t, u32)
INT(i64, int64_t, i64)
INT(u64, uint64_t, u64)
INT(enum, short, enumeration)

VP_OBLIGATION(ob_value_bool) {
  const int place = int(vp_enum("place", 0, 1));
  const bool v = vp_enum("value", 0, 1);
  fixture f = vp_make(place, boolean, true);
  if (vp_enum("overwrite", 0, 1))
    f.t->set_bool(f.k, !v);
  f.t->set_bool(f.k, v);
  vp_assert(f.t->get_bool(f.k) == v, "the value reads back");
  vp_neighbours(f, f.t);
  const tuple_ro *ro = f.t->take_asis();
  vp_assert(ro->get_bool(f.k) == v, "the value reads back from the finished tuple");
  vp_neighbours(f, ro);
}
VP_OBLIGATION(ob_value_f32) {
  const int place = int(vp_enum("place", 0, 1));
  const bool d = vp_enum("discernible", 0, 1);
  fixture f = vp_make(place, f32, d);
  const float v = vp_f32("value", -std::numeric_limits<float>::max(), std::numeric_limits<float>::max());
  VP_FCELLS(v, 0.0);
  vp_assume(!place && !d ? v != 0 : true);
  if (vp_enum("overwrite", 0, 1))
    f.t->set_f32(f.k, 1.5f);
  f.t->set_f32(f.k, v);
  vp_assert(f.t->get_f32(f.k) == v, "the value reads back");
  vp_neighbours(f, f.t);
  const tuple_ro *ro = f.t->take_asis();
  vp_assert(ro->get_f32(f.k) == v, "the value reads back from the finished tuple");
  vp_neighbours(f, ro);
}
VP_OBLIGATION(ob_value_f64) {
  const int place = int(vp_enum("place", 0, 1));
  const bool d = vp_enum("discernible", 0, 1);
  fixture f = vp_make(place, f64, d);
  const double v = vp_f("value", -std::numeric_limits<double>::max(), std::numeric_limits<double>::max());
  VP_FCELLS(v, 0.0);
  vp_assume(!place && !d ? v != 0 : true);
  if (vp_enum("overwrite", 0, 1))
    f.t->set_f64(f.k, 1.5);
  f.t->set_f64(f.k, v);
  vp_assert(f.t->get_f64(f.k) == v, "the value reads back");
  vp_neighbours(f, f.t);
  const tuple_ro *ro = f.t->take_asis();
  vp_assert(ro->get_f64(f.k) == v, "the value reads back from the finished tuple");
  vp_neighbours(f, ro);
}

/* opaque values: arbitrary bytes with one byte known to be nonzero, tried at the first, a middle and the last position */
#define BIN(NAME, T, G)                                                        \
  VP_OBLIGATION(ob_value_##NAME) {                                             \
    const int place = int(vp_enum("place", 0, 1));                             \
    const bool d = vp_enum("discernible", 0, 1);                               \
    fixture f = vp_make(place, G, d);                                          \
    T *v = static_cast<T *>(vp_alloc(sizeof(T), 0, "source"));                 \
    vp_bytes(v, sizeof(T), "value");                                           \
    uint8_t *b = reinterpret_cast<uint8_t *>(v);                               \
    const size_t nz = size_t(vp_enum("nonzero", 0, sizeof(T) - 1));            \
    b[nz] = uint8_t(vp_u("byte", 1, 255));                                     \
    T twin;                                                                    \
    for (size_t i = 0; i < sizeof(T); ++i)                                     \
      reinterpret_cast<uint8_t *>(&twin)[i] = b[i];                            \
    if (vp_enum("overwrite", 0, 1)) {                                          \
      T o;                                                                     \
      for (size_t i = 0; i < sizeof(T); ++i)                                   \
        reinterpret_cast<uint8_t *>(&o)[i] = 0x77;                             \
      f.t->set_##NAME(f.k, o);                                                 \
    }                                                                          \
    f.t->set_##NAME(f.k, *v);                                                  \
    vp_assert(bits<T>(f.t->get_##NAME(f.k), twin), "the value reads back");    \
    vp_neighbours(f, f.t);                                                     \
    const tuple_ro *ro = f.t->take_asis();                                     \
    vp_assert(bits<T>(ro->get_##NAME(f.k), twin), "the value reads back from the finished tuple"); \
    vp_neighbours(f, ro);                                                      \
  }
BIN(bin96, binary96_t, bin96)
BIN(bin128, binary128_t, bin128)
BIN(bin160, binary160_t, bin160)
BIN(bin192, binary192_t, bin192)
BIN(bin224, binary224_t, bin224)
BIN(bin256, binary256_t, bin256)
BIN(bin320, binary320_t, bin320)
BIN(bin384, binary384_t, bin384)
BIN(bin512, binary512_t, bin512)
BIN(uuid, fptu::uuid_t, bin128)
BIN(ip_address, ip_address_t, ip)
BIN(ip_net, ip_net_t, ipnet)

VP_OBLIGATION(ob_value_mac_address) {
  const int place = int(vp_enum("place", 0, 1));
  const bool d = vp_enum("discernible", 0, 1);
  fixture f = vp_make(place, mac, d);
  const mac_address_t v(vp_u("value", 1, UINT64_C(0xffffFFFFffff)));
  if (vp_enum("overwrite", 0, 1))
    f.t->set_mac_address(f.k, mac_address_t(0x112233445566));
  f.t->set_mac_address(f.k, v);
  vp_assert(f.t->get_mac_address(f.k).raw64 == v.raw64, "the value reads back");
  vp_neighbours(f, f.t);
  const tuple_ro *ro = f.t->take_asis();
  vp_assert(ro->get_mac_address(f.k).raw64 == v.raw64, "the value reads back from the finished tuple");
  vp_neighbours(f, ro);
}
VP_OBLIGATION(ob_value_datetime64) {
  const int place = int(vp_enum("place", 0, 1));
  const bool d = vp_enum("discernible", 0, 1);
  fixture f = vp_make(place, t64, d);
  const datetime_t v = datetime_t::from_fixedpoint_32dot32(vp_u("value", 1, UINT64_MAX));
  if (vp_enum("overwrite", 0, 1))
    f.t->set_datetime(f.k, datetime_t::from_fixedpoint_32dot32(77));
  f.t->set_datetime(f.k, v);
  vp_assert(f.t->get_datetime(f.k).fixedpoint_32dot32() == v.fixedpoint_32dot32(), "the value reads back");
  vp_neighbours(f, f.t);
  const tuple_ro *ro = f.t->take_asis();
  vp_assert(ro->get_datetime(f.k).fixedpoint_32dot32() == v.fixedpoint_32dot32(), "the value reads back from the finished tuple");
  vp_neighbours(f, ro);
}
VP_OBLIGATION(ob_value_datetime32) {
  const int place = int(vp_enum("place", 0, 1));
  const bool d = vp_enum("discernible", 0, 1);
  fixture f = vp_make(place, t32, d);
  const uint64_t s = vp_u("seconds", 1, UINT32_MAX);
  const datetime_t v = datetime_t::from_seconds(unsigned(s));
  if (vp_enum("overwrite", 0, 1))
    f.t->set_datetime(f.k, datetime_t::from_seconds(77));
  f.t->set_datetime(f.k, v);
  vp_assert(f.t->get_datetime(f.k).fixedpoint_32dot32() == s << 32, "the value reads back");
  vp_neighbours(f, f.t);
  const tuple_ro *ro = f.t->take_asis();
  vp_assert(ro->get_datetime(f.k).fixedpoint_32dot32() == s << 32, "the value reads back from the finished tuple");
  vp_neighbours(f, ro);
}
VP_OBLIGATION(ob_value_decimal) {
  const int place = int(vp_enum("place", 0, 1));
  const bool d = vp_enum("discernible", 0, 1);
  fixture f = vp_make(place, d64, d);
  decimal64 v;
  v.i64 = vp_i("value", INT64_MIN, INT64_MAX);
  VP_CELLS_I(v.i64, -1, 0);
  vp_assume(place && d ? v.i64 != -1 : true);
  vp_assume(!place && !d ? v.i64 != 0 : true);
  f.t->set_decimal(f.k, v);
  vp_assert(f.t->get_decimal(f.k).i64 == v.i64, "the value reads back");
  vp_neighbours(f, f.t);
  const tuple_ro *ro = f.t->take_asis();
  vp_assert(ro->get_decimal(f.k).i64 == v.i64, "the value reads back from the finished tuple");
  vp_neighbours(f, ro);
}

/* the typed setters and getters accept their own type only; a refused set changes nothing */
template <typename SET, typename GET> static void only(genus own1, genus own2, SET set, GET get) {
  const int place = int(vp_enum("place", 0, 1));
  const genus g = genus(vp_enum("type", 0, 30));
  vp_assume(g != own1 && g != own2);
  fixture f = vp_make(place, g, true);
  const size_t before = f.t->brutto_size();
  {
    OUTCOME(r, set(f.t, f.k));
    vp_assert(r == MISMATCH, "a setter refuses a field of another type");
  }
  vp_assert(f.t->brutto_size() == before, "a refused set changes nothing");
  vp_neighbours(f, f.t);
  {
    OUTCOME(r, get(f.t, f.k));
    vp_assert(r == MISMATCH, "a getter refuses a field of another type");
  }
  const tuple_ro *ro = f.t->take_asis();
  {
    OUTCOME(r, get(ro, f.k));
    vp_assert(r == MISMATCH, "a getter of a finished tuple refuses a field of another type");
  }
}
#define ONLY(NAME, G1, G2, V)                                                  \
  VP_OBLIGATION(ob_only_##NAME) {                                              \
    only(G1, G2, [](tuple_rw *t, const token &k) { t->set_##NAME(k, V); },     \
         [](const auto *t, const token &k) { (void)t->get_##NAME(k); });       \
  }
static const binary512_t bins = {};
ONLY(bool, i8, i8, true)
ONLY(enum, i16, i16, short(3))
ONLY(i8, i8, i8, int8_t(3))
ONLY(u8, u8, u8, uint8_t(3))
ONLY(i16, i16, i16, int16_t(3))
ONLY(u16, u16, u16, uint16_t(3))
ONLY(i32, i32, i32, int32_t(3))
ONLY(u32, u32, u32, uint32_t(3))
ONLY(i64, i64, i64, int64_t(3))
ONLY(u64, u64, u64, uint64_t(3))
ONLY(f32, f32, f32, 3.f)
ONLY(f64, f64, f64, 3.0)
ONLY(decimal, d64, d64, decimal64(short(3)))
ONLY(datetime, t32, t64, datetime_t::from_seconds(77))
ONLY(mac_address, mac, mac, mac_address_t(3))
ONLY(ip_address, ip, ip, ip_address_t(3))
ONLY(ip_net, ipnet, ipnet, ip_net_t(3))
ONLY(bin96, bin96, bin96, *reinterpret_cast<const binary96_t *>(&bins))
ONLY(bin128, bin128, bin128, *reinterpret_cast<const binary128_t *>(&bins))
ONLY(bin160, bin160, bin160, *reinterpret_cast<const binary160_t *>(&bins))
ONLY(bin192, bin192, bin192, *reinterpret_cast<const binary192_t *>(&bins))
ONLY(bin224, bin224, bin224, *reinterpret_cast<const binary224_t *>(&bins))
ONLY(bin256, bin256, bin256, *reinterpret_cast<const binary256_t *>(&bins))
ONLY(bin320, bin320, bin320, *reinterpret_cast<const binary320_t *>(&bins))
ONLY(bin384, bin384, bin384, *reinterpret_cast<const binary384_t *>(&bins))
ONLY(bin512, bin512, bin512, bins)
ONLY(uuid, bin128, bin128, *reinterpret_cast<const fptu::uuid_t *>(&bins))
ONLY(string, text, text, string_view("x"))
ONLY(varbinary, varbin, varbin, string_view("x"))
ONLY(property, property, property, property_pair(string_view("x"), 1))
