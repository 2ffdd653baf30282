/* Fixed-size fields through compile-time identifiers and through the structure itself. */
#include "members.h"
template <typename T> static T some() {
  return T(std::is_signed<T>::value ? vp_i("value", std::numeric_limits<T>::min(), std::numeric_limits<T>::max()) : (int64_t)vp_u("value", 0, std::numeric_limits<T>::max()));
}
template <typename K, typename T, typename P, typename G> static void value(tuple_rw *t, T v, P put, G get, T numbers::*field) {
  const K k;
  put(t, k, v);
  vp_assert(get(t, k) == v, "the value reads back by the compile-time identifier");
  vp_assert(get(t, token(k.preplaced_offset(), k.type())) == v, "and by the one made at run time");
  const tuple_ro *ro = t->take_asis();
  vp_assert(get(ro, k) == v, "in the finished tuple");
  const numbers *n = reinterpret_cast<const numbers *>(ro->begin_data_bytes());
  vp_assert(n->*field == v, "and in the structure");
  vp_assert(n->head == 0xA5A5A5A5u && n->tail == 0x5A5A5A5Au, "the other members keep their values");
  t->set_u32(FPTU_TOKEN(numbers, head)(), 0);
  vp_assert(get(t, k) == v, "it is not disturbed by others");
}
VP_OBLIGATION(ob_member_values) {
  static const genus g[] = {u32, boolean, i8, u8, i16, u16, i32, u32, i64, u64, u32};
  schema *s = make(g, 11);
  tuple_rw *t = tuple_rw::create_new(4, 300, s, hippeus::buffer_tag());
  t->set_u32(FPTU_TOKEN(numbers, head)(), 0xA5A5A5A5u);
  t->set_u32(FPTU_TOKEN(numbers, tail)(), 0x5A5A5A5Au);
#define V(N, F, T, NAME) case N: value<FPTU_TOKEN(numbers, F), T>(t, some<T>(), [](auto *p, const auto &k, T v) { p->set_##NAME(k, v); }, [](auto *p, const auto &k) { return p->get_##NAME(k); }, &numbers::F); break;
  switch (int(vp_enum("member", 0, 8))) {
  V(0, s8, int8_t, i8) V(1, n8, uint8_t, u8) V(2, s16, int16_t, i16) V(3, n16, uint16_t, u16) V(4, s32, int32_t, i32) V(5, n32, uint32_t, u32) V(6, s64, int64_t, i64) V(7, n64, uint64_t, u64)
  case 8: value<FPTU_TOKEN(numbers, flag), bool>(t, vp_enum("flag", 0, 1) != 0, [](auto *p, const auto &k, bool v) { p->set_bool(k, v); }, [](auto *p, const auto &k) { return p->get_bool(k); }, &numbers::flag); break;
  }
#undef V
}
