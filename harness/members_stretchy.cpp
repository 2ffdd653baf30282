/* Variable-length fields through compile-time identifiers and through the structure itself. */
#include "members.h"
/* variable-length members of the structure */
VP_OBLIGATION(ob_member_stretchy) {
  static const genus g[] = {u32, text, varbin, nested, property, u32};
  schema *s = make(g, 6);
  tuple_rw *t = tuple_rw::create_new(4, 400, s, hippeus::buffer_tag());
  const FPTU_TOKEN(stretch, str) str;
  const FPTU_TOKEN(stretch, bin) bin;
  const FPTU_TOKEN(stretch, nst) nst;
  const FPTU_TOKEN(stretch, prp) prp;
  char bytes[6];
  vp_bytes(bytes, 6, "bytes");
  const size_t n = size_t(vp_enum("length", 1, 6));
  const unsigned set = unsigned(vp_enum("present", 0, 15));
  t->set_u32(FPTU_TOKEN(stretch, head)(), 0xA5A5A5A5u);
  t->set_u32(FPTU_TOKEN(stretch, tail)(), 0x5A5A5A5Au);
  tuple_rw *in = vp_fresh(4, 256);
  in->set_u32(token(u32, 1, false, true, false), 0x12345678u);
  const tuple_ro *inner = in->take_asis();
  if (set & 1) t->set_string(str, string_view(bytes, n));
  if (set & 2) t->set_varbinary(bin, string_view(bytes, n));
  if (set & 4) t->set_nested(nst, inner);
  if (set & 8) t->set_property(prp, property_pair(string_view(bytes, n), 9));
  const tuple_ro *ro = t->take_asis();
  const stretch *p = reinterpret_cast<const stretch *>(ro->begin_data_bytes());
  vp_assert(p->head == 0xA5A5A5A5u && p->tail == 0x5A5A5A5Au, "the other members keep their values");
  vp_assert(ro->is_present(str) == !!(set & 1) && ro->is_present(bin) == !!(set & 2) && ro->is_present(nst) == !!(set & 4) && ro->is_present(prp) == !!(set & 8), "presence");
  const string_view views[] = {p->str.value_nothrow(), p->bin.value_nothrow(), p->prp.value_nothrow().first, ro->get_string(str), ro->get_varbinary(bin), ro->get_property(prp).first};
  static const unsigned masks[] = {1, 2, 8, 1, 2, 8};
  for (int i = 0; i < 6; ++i) {
    if (!(set & masks[i])) {
      vp_assert(views[i].size() == 0, "an absent one is empty");
      continue;
    }
    vp_assert(views[i].size() == n, "its length");
    for (size_t k = 0; k < n; ++k)
      vp_assert(vp_same(uint8_t(views[i].data()[k]), uint8_t(bytes[k])), "its bytes");
  }
  if (set & 8)
    vp_assert(p->prp.value_nothrow().second == 9 && ro->get_property(prp).second == 9, "the number of a property");
  if (set & 4)
    vp_assert(p->nst.value_nothrow().get_impl()->size() == inner->size() && p->nst.value_nothrow().get_u32(token(u32, 1, false, true, false)) == 0x12345678u, "the nested tuple");
  OUTCOME(a, p->str.value());
  OUTCOME(b, p->bin.value());
  OUTCOME(c, p->nst.value());
  OUTCOME(d, p->prp.value());
  vp_assert((a == OK) == !!(set & 1) && (b == OK) == !!(set & 2) && (c == OK) == !!(set & 4) && (d == OK) == !!(set & 8), "an absent member is an error");
  if (set & 1)
    vp_assert(p->str.value().size() == n && p->str.value().data() == views[0].data(), "the checked form gives the same");
  if (set & 2)
    vp_assert(p->bin.value().size() == n && p->bin.value().data() == views[1].data(), "the checked form gives the same");
  if (set & 8)
    vp_assert(p->prp.value().first.size() == n && p->prp.value().second == 9, "the checked form gives the same");
  if (set & 4)
    vp_assert(p->nst.value().get_u32(token(u32, 1, false, true, false)) == 0x12345678u, "the checked form gives the same");
}
