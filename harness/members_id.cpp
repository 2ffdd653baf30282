/* Identifiers made at compile time for members of a structure. */
#include "members.h"
template <typename K> static void member(size_t offset, size_t size, genus g) {
  const K k;
  const token same(ptrdiff_t(offset), g);
  vp_assert(k.is_preplaced() && !k.is_loose() && !k.is_collection() && !k.is_inlay(), "it is a fixed-offset field");
  vp_assert(size_t(k.preplaced_offset()) == offset, "the offset is that of the member");
  vp_assert(k.preplaced_size() == size, "the size is that of the member");
  vp_assert(k.type() == g, "the type is that of the member");
  vp_assert(!k.is_discernible_null() && !k.is_saturated() && k.is_rangechecking(), "no flags");
  vp_assert(K::is_static_token::value && K::is_static_preplaced() && size_t(K::static_offset) == offset && K::static_genus == g, "known at compile time");
  if (g > 3)
    vp_assert(k.tag() == same.tag() && tag_same(k.tag(), same.tag()) && k.normalized_tag() == same.normalized_tag(), "the same as one made at run time");
  vp_assert(k.is_stretchy() == (g <= 3) && k.is_number() == same.is_number() && k.is_integer() == same.is_integer() && k.is_signed() == same.is_signed() && k.is_unsigned() == same.is_unsigned() && k.is_float() == same.is_float(), "classes");
}
VP_OBLIGATION(ob_member_identifiers) {
#define M(F, G) { typedef FPTU_TOKEN(record, F) K; member<K>(offsetof(record, F), sizeof(record::F), genus::G); }
  M(flag, boolean) M(s8, i8) M(n8, u8) M(s16, i16) M(n16, u16) M(e, enumeration) M(s32, i32) M(n32, u32) M(r32, f32) M(s64, i64) M(n64, u64) M(r64, f64) M(when, t64) M(dec, d64)
  M(hw, mac) M(addr, ip) M(id, bin128) M(b96, bin96) M(b160, bin160) M(b192, bin192) M(b224, bin224) M(b256, bin256) M(b320, bin320) M(b384, bin384) M(b512, bin512)
  M(str, text) M(bin, varbin) M(nst, nested) M(prp, property)
#undef M
}
/* flags of a compile-time identifier */
VP_OBLIGATION(ob_member_flags) {
  typedef token_native<numbers, int32_t, &numbers::s32, offsetof(numbers, s32), true, false> D;
  typedef token_native<numbers, int32_t, &numbers::s32, offsetof(numbers, s32), false, true> S;
  typedef token_native<numbers, int32_t, &numbers::s32, offsetof(numbers, s32), true, true> B;
  const ptrdiff_t off = offsetof(numbers, s32);
  vp_assert(D().tag() == token(off, i32, true, false).tag() && D().is_discernible_null() && !D().is_saturated(), "discernible");
  vp_assert(S().tag() == token(off, i32, false, true).tag() && !S().is_discernible_null() && S().is_saturated(), "saturated");
  vp_assert(B().tag() == token(off, i32, true, true).tag() && B().is_discernible_null() && B().is_saturated(), "both");
  vp_assert(D().normalized_tag() == S().normalized_tag() && tag_same(D().tag(), B().tag()), "identity ignores the flags");
}
