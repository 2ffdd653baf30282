/* Compaction moves pieces of every length over gaps of every kind, and growing among holes with little room either works or changes nothing. */
#include "io.h"

static const uint8_t *fill(unsigned bytes) {
  uint8_t *b = static_cast<uint8_t *>(vp_alloc(bytes, 0, "bytes"));
  vp_bytes(b, bytes, "b");
  return b;
}
static string_view view(const uint8_t *b, unsigned bytes) { return string_view(reinterpret_cast<const char *>(b), bytes); }
static void same(const string_view &v, const uint8_t *b, unsigned bytes) {
  vp_assert(v.size() == bytes, "every field keeps its length");
  for (unsigned i = 0; i < bytes; i += (bytes > 200 && i > 16 && i + 40 < bytes) ? 24 : 1)
    vp_assert(vp_same(uint8_t(v.data()[i]), b[i]), "every field keeps its bytes");
}
static void shift(unsigned gap, unsigned from, unsigned to, bool preplaced) {
  const unsigned len = unsigned(vp_enum("len", from, to));
  const token a(varbin, 1, false, true, false), c(varbin, 3, false, true, false), n(u32, 4, false, true, false);
  token b(varbin, 2, false, true, false);
  schema *s = nullptr;
  if (preplaced) {
    s = schema::create().release();
    b = s->define_preplaced(std::string("b"), varbin, true, false, nullptr);
  }
  tuple_rw *t = tuple_rw::create_new(6, (gap + len + 20) * 4, s, hippeus::buffer_tag());
  const uint8_t *const x = fill(gap * 4), *const y = fill(len * 4), *const z = fill(8);
  const uint32_t w = uint32_t(vp_u("w", 0, UINT32_MAX));
  if (gap > 1)
    t->set_varbinary(a, view(x, (gap - 1) * 4));
  else
    t->set_u32(token(u32, 1, false, true, false), w);
  t->set_varbinary(b, view(y, len * 4));
  t->set_u32(n, w);
  t->set_varbinary(c, view(z, 8));
  vp_assert(t->erase(gap > 1 ? a : token(u32, 1, false, true, false)), "erasing tells that there was something");
  vp_assert(t->junk_units() >= gap, "what was erased is accounted as junk");
  const tuple_ro *const ro = t->take_optimized().first;
  vp_assert(t->junk_units() == 0, "compaction leaves no junk");
  same(t->get_varbinary(b), y, len * 4);
  same(ro->get_varbinary(b), y, len * 4);
  same(ro->get_varbinary(c), z, 8);
  vp_assert(ro->get_u32(n) == w, "every field keeps its value");
  vp_assert(tuple_ro::audit(ro, ro->size(), s, true) == nullptr, "the finished tuple is well-formed and without holes");
}
VP_OBLIGATION(ob_shift_1) { shift(1, 1, 22, false); }
VP_OBLIGATION(ob_shift_2) { shift(2, 1, 22, false); }
VP_OBLIGATION(ob_shift_9) { shift(9, 1, 22, false); }
VP_OBLIGATION(ob_shift_25) { shift(25, 1, 22, false); }
VP_OBLIGATION(ob_shift_pre) { shift(3, 1, 22, true); }
/* variable-length fields of every kind, loose and at a fixed offset, among holes */
VP_OBLIGATION(ob_shift_kinds) {
  const bool fixed = vp_enum("fixed-offset", 0, 1);
  schema *const s = schema::create().release();
  const token lead = s->define_preplaced(std::string("l"), u32, true, false, nullptr);
  const token a = fixed ? s->define_preplaced(std::string("a"), text, true, false, nullptr) : token(text, 1, false, true, false);
  const token b = fixed ? s->define_preplaced(std::string("b"), varbin, true, false, nullptr) : token(varbin, 1, false, true, false);
  const token c = fixed ? s->define_preplaced(std::string("c"), property, true, false, nullptr) : token(property, 1, false, true, false);
  const token d = fixed ? s->define_preplaced(std::string("d"), nested, true, false, nullptr) : token(nested, 1, false, true, false);
  tuple_rw *const in = tuple_rw::create_new(1, 16, nullptr, hippeus::buffer_tag());
  const uint32_t w = uint32_t(vp_u("w", 0, UINT32_MAX));
  vp_assume(w != 0); /* the NIL of the fixed-offset one */
  in->set_u32(token(u32, 9, false, true, false), w);
  const uint8_t *const x = fill(12), *const y = fill(8), *const z = fill(8), *const g = fill(12);
  tuple_rw *const t = tuple_rw::create_new(8, 160, s, hippeus::buffer_tag());
  const unsigned first = unsigned(vp_enum("hole before", 0, 3));
  t->set_u32(lead, w);
  for (unsigned i = 0; i < 4; ++i) {
    const unsigned k = (i + unsigned(first)) & 3;
    if (i == 0 || i == 2)
      t->set_varbinary(token(varbin, 20 + i, false, true, false), view(g, 12));
    if (k == 0)
      t->set_string(a, view(x, 11));
    else if (k == 1)
      t->set_varbinary(b, view(y, 8));
    else if (k == 2)
      t->set_property(c, property_pair(view(z, 5), 7));
    else
      t->set_nested(d, in->take_asis());
  }
  const unsigned holes = unsigned(vp_enum("holes", 1, 3));
  if (holes & 1)
    t->erase(token(varbin, 20, false, true, false));
  if (holes & 2)
    t->erase(token(varbin, 22, false, true, false));
  const tuple_ro *const ro = t->take_optimized().first;
  vp_assert(t->junk_units() == 0, "compaction leaves no junk");
  same(ro->get_string(a), x, 11);
  same(ro->get_varbinary(b), y, 8);
  same(ro->get_property(c).first, z, 5);
  vp_assert(ro->get_property(c).second == 7, "every field keeps its value");
  vp_assert(ro->get_nested(d)->get_u32(token(u32, 9, false, true, false)) == w, "every field keeps its value");
  vp_assert(ro->get_u32(lead) == w, "every field keeps its value");
  vp_assert(tuple_ro::audit(ro, ro->size(), s, true) == nullptr, "the finished tuple is well-formed and without holes");
}
VP_OBLIGATION(ob_shift_long) { shift(unsigned(vp_enum("gap", 1, 3)), 60, 62, vp_enum("pre", 0, 1)); }
VP_OBLIGATION(ob_deep_shift) { shift(unsigned(vp_enum("gap", 3, 18)), 1, 40, vp_enum("pre", 0, 1)); }

/* four fields, one erased, then another one is resized, with any room left */
static void resize(unsigned spare, unsigned items) {
  static const unsigned lens[] = {1, 2, 2, 1};
  token k[4];
  const uint8_t *src[4];
  unsigned len[4];
  tuple_rw *t = tuple_rw::create_new(items, (2 + 3 + 3 + 2 + spare) * 4, nullptr, hippeus::buffer_tag());
  for (unsigned i = 0; i < 4; ++i) {
    k[i] = token(varbin, i + 3, false, true, false);
    len[i] = lens[i];
    src[i] = fill(len[i] * 4);
    t->set_varbinary(k[i], view(src[i], len[i] * 4));
  }
  const unsigned a = unsigned(vp_enum("erased", 0, 3)), b = unsigned(vp_enum("resized", 0, 3));
  vp_assume(a != b);
  vp_assert(t->erase(k[a]), "erasing tells that there was something");
  const unsigned want = unsigned(vp_enum("len", 1, 9));
  const uint8_t *const y = fill(want * 4);
  const size_t junk = t->junk_units(), head = t->head_space(), tail = t->tail_space_units();
  OUTCOME(r, t->set_varbinary(k[b], view(y, want * 4)));
  vp_assert(r == OK || r == NOSPACE, "storing succeeds or fails for lack of space");
  if (r == OK) {
    len[b] = want;
    src[b] = y;
  } else {
    vp_assert(t->junk_units() == junk && t->head_space() == head && t->tail_space_units() == tail, "a refusal leaves the account as it was");
    vp_assert(tail < 1 + want || head < 1, "what fits is not refused");
  }
  for (unsigned i = 0; i < 4; ++i) {
    vp_assert(t->is_present(k[i]) == (i != a), "exactly the stored fields are present");
    if (i != a)
      same(t->get_varbinary(k[i]), src[i], len[i] * 4);
  }
  vp_assert(t->audit() == nullptr, "the tuple stays consistent");
  t->optimize();
  for (unsigned i = 0; i < 4; ++i)
    if (i != a)
      same(t->get_varbinary(k[i]), src[i], len[i] * 4);
  vp_assert(t->junk_units() == 0 && t->audit() == nullptr, "the tuple stays consistent");
}
#define X(N) VP_OBLIGATION(ob_resize_##N) { resize(N, 6); } VP_OBLIGATION(ob_resize_full_##N) { resize(N, 4); }
X(0) X(1) X(2) X(3) X(5) X(8)
#undef X
