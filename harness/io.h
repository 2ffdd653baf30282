/* uniform access to every field type: some value, the empty value, the dedicated NIL value */
#pragma once
#include "fixture.h"
static const binary512_t vp_zero512 = {};
static binary512_t vp_some512() {
  binary512_t v = {};
  v.u8[0] = 0x5A;
  return v;
}
static inline const tuple_ro *vp_nest_empty() { return vp_fresh(4, 256)->take_asis(); }
enum what { SOME, EMPTY, NIL };
#define VP_BINS(X) X(bin96, binary96_t, bin96) X(bin128, binary128_t, bin128) X(bin160, binary160_t, bin160) X(bin192, binary192_t, bin192) X(bin224, binary224_t, bin224) X(bin256, binary256_t, bin256) X(bin320, binary320_t, bin320) X(bin384, binary384_t, bin384) X(bin512, binary512_t, bin512) X(ip_address, ip_address_t, ip) X(ip_net, ip_net_t, ipnet)
#define VP_INTS(X) X(i8, int8_t) X(u8, uint8_t) X(i16, int16_t) X(u16, uint16_t) X(i32, int32_t) X(u32, uint32_t) X(i64, int64_t) X(u64, uint64_t)

/* a setter of the exact type, chosen by g */
template <typename W> static inline void put(W *t, const token &k, unsigned g, what w, const tuple_ro *nest) {
  switch (g) {
  case text: return t->set_string(k, w == SOME ? string_view("hello") : string_view(""));
  case varbin: return t->set_varbinary(k, w == SOME ? string_view("hello") : string_view(""));
  case nested: return t->set_nested(k, w == SOME ? nest : w == NIL ? nullptr : vp_nest_empty());
  case property: return t->set_property(k, w == SOME ? property_pair(string_view("hello"), 7) : property_pair(string_view(""), 0));
#define X(N, T) case N: return t->set_##N(k, w == SOME ? T(0x55) : w == NIL && std::is_signed<T>::value ? std::numeric_limits<T>::min() : T(0));
  VP_INTS(X)
#undef X
  case f32: return t->set_f32(k, w == SOME ? 1.5f : 0.f);
  case f64: return t->set_f64(k, w == SOME ? 1.5 : 0.0);
  case d64: {
    decimal64 v;
    v.i64 = w == SOME ? 0x55 : w == NIL ? -1 : 0;
    return t->set_decimal(k, v);
  }
  case t32: return t->set_datetime(k, datetime_t::from_seconds(w == SOME ? 77 : 0));
  case t64: return t->set_datetime(k, datetime_t::from_fixedpoint_32dot32(w == SOME ? 77 : 0));
  case mac: return t->set_mac_address(k, mac_address_t(w == SOME ? 77 : 0));
#define X(N, T, G) case G: { const binary512_t v = w == SOME ? vp_some512() : vp_zero512; return t->set_##N(k, *reinterpret_cast<const T *>(&v)); }
  VP_BINS(X)
#undef X
  default: __builtin_unreachable();
  }
}
/* reads by the exact type: 0 empty, 1 the value put() calls SOME, 2 something else */
template <typename T> static inline int zs(const T &v, T s) { return v == T(0) ? 0 : v == s ? 1 : 2; }
template <typename T> static inline int view(const T &v) {
  if (v.size() == 0) return 0;
  return v.size() == 5 && v.data()[0] == 'h' && v.data()[1] == 'e' && v.data()[2] == 'l' && v.data()[3] == 'l' && v.data()[4] == 'o' ? 1 : 2;
}
template <typename T> static inline int get(const T *t, const token &k, unsigned g, size_t nest_size) {
  switch (g) {
  case text: return view(t->get_string(k));
  case varbin: return view(t->get_varbinary(k));
  case nested: {
    const tuple_ro *n = t->get_nested(k);
    return n == nullptr || n->size() <= 4 ? 0 : n->size() == nest_size ? 1 : 2;
  }
  case property: {
    const property_pair p = t->get_property(k);
    const int v = view(p.first);
    return v == 0 && p.second == 0 ? 0 : v == 1 && p.second == 7 ? 1 : 2;
  }
#define X(N, T) case N: return zs<T>(t->get_##N(k), T(0x55));
  VP_INTS(X)
#undef X
  case f32: return zs<float>(t->get_f32(k), 1.5f);
  case f64: return zs<double>(t->get_f64(k), 1.5);
  case d64: return zs<int64_t>(t->get_decimal(k).i64, 0x55);
  case t32: return zs<uint64_t>(t->get_datetime(k).fixedpoint_32dot32(), uint64_t(77) << 32);
  case t64: return zs<uint64_t>(t->get_datetime(k).fixedpoint_32dot32(), 77);
  case mac: return zs<uint64_t>(t->get_mac_address(k).raw64, 77);
#define X(N, T, G) case G: { const T &r = t->get_##N(k); \
    for (size_t i = 1; i < sizeof(T); ++i) if (reinterpret_cast<const uint8_t *>(&r)[i]) return 2; \
    const uint8_t b = reinterpret_cast<const uint8_t *>(&r)[0]; return b == 0 ? 0 : b == 0x5A ? 1 : 2; }
  VP_BINS(X)
#undef X
  default: __builtin_unreachable();
  }
}
/* a finished tuple to nest */
static inline const tuple_ro *vp_nest() {
  tuple_rw *n = vp_fresh(4, 256);
  n->set_u32(token(u32, 1, false, true, false), 0x12345678u);
  return n->take_asis();
}
/* every storable type, app_reserved_* have no accessors */
static inline unsigned vp_type() {
  const unsigned g = unsigned(vp_enum("type", 0, 30));
  vp_assume(g != app_reserved_64 && g != app_reserved_128);
  return g;
}
