/* Schema definitions: layout, uniqueness, refusal, lookups, initial values */
#include "io.h"
#include <string>

static const uint8_t bytes_of[31] = {4, 4, 4, 4, 1, 1, 2, 2, 4, 4, 4, 4, 8, 8, 8, 8, 8, 12, 16, 20, 24, 28, 32, 40, 48, 64, 8, 16, 8, 16, 20};
static size_t align_of(unsigned g) { return bytes_of[g] > 4 ? 4 : bytes_of[g]; }
static size_t up(size_t v, size_t a) { return (v + a - 1) / a * a; }
/* one type per size and alignment */
static unsigned kind(const char *name) {
  static const uint8_t k[] = {u8, u16, text, f64};
  return k[vp_enum(name, 0, 3)];
}

static void layout_pair(unsigned a, unsigned b) {
  schema *s = schema::create().release();
  const bool da = vp_enum("da", 0, 1);
  const token x = s->define_preplaced(std::string("x"), genus(a), da, !da, nullptr);
  const token y = s->define_preplaced(std::string("y"), genus(b), !da, da, nullptr);
  vp_assert(x.is_preplaced() && y.is_preplaced() && x.type() == a && y.type() == b, "the identifier is of the requested kind and type");
  vp_assert(x.is_discernible_null() == da && x.is_saturated() == !da && y.is_discernible_null() == !da && y.is_saturated() == da, "the identifier has the requested flags");
  vp_assert(x.preplaced_offset() == 0, "the first field is at the beginning");
  vp_assert(y.preplaced_offset() == ptrdiff_t(up(bytes_of[a], align_of(b))), "fields follow one another, aligned, without overlapping");
  vp_assert(s->preplaced_bytes() == y.preplaced_offset() + bytes_of[b], "the image covers all fields exactly");
  vp_assert(s->number_of_preplaced() == 2 && s->number_of_stretchy_preplaced() == size_t((a <= property) + (b <= property)), "the fields are counted");
  vp_assert(s->tokens().size() == 2 && s->tokens()[0] == x && s->tokens()[1] == y, "the list of identifiers is complete and sorted");
}
VP_OBLIGATION(ob_layout_first) { layout_pair(vp_enum("first", 0, 30), kind("second")); }
VP_OBLIGATION(ob_layout_second) { layout_pair(kind("first"), vp_enum("second", 0, 30)); }
VP_OBLIGATION(ob_deep_layout_pair) {
  const unsigned a = vp_enum("first", 0, 30);
  layout_pair(a, vp_enum("second", 0, 30));
}
VP_OBLIGATION(ob_layout_four) {
  unsigned g[4] = {kind("a"), kind("b"), kind("c"), kind("d")};
  static const char *const names[] = {"a", "b", "c", "d"};
  schema *s = schema::create().release();
  size_t end = 0;
  for (unsigned i = 0; i < 4; ++i) {
    const token t = s->define_field(true, std::string(names[i]), genus(g[i]), false, false);
    vp_assert(t.preplaced_offset() == ptrdiff_t(up(end, align_of(g[i]))), "fields follow one another, aligned, without overlapping");
    end = t.preplaced_offset() + bytes_of[g[i]];
    vp_assert(s->preplaced_bytes() == end, "the image covers all fields exactly");
  }
  vp_assert(s->preplaced_units() == (end + 3) / 4, "the image size in units");
}
VP_OBLIGATION(ob_bad_type) {
  schema *s = schema::create().release();
  const unsigned g = vp_enum("type", 0, 40), how = vp_enum("how", 0, 2);
  OUTCOME(r, how == 0 ? s->define_preplaced(std::string("x"), genus(g), false, false, nullptr)
                      : how == 1 ? s->define_loose(std::string("x"), genus(g), false, false, false)
                                 : s->define_collection(std::string("x"), genus(g), false, false));
  vp_assert(r == (g >= hole ? BADARG : OK), "exactly the storable types are accepted");
  vp_assert(s->tokens().size() == (r == OK), "a refused definition leaves nothing");
}
VP_OBLIGATION(ob_name_length) {
  static const uint8_t lens[] = {0, 1, 2, 15, 16, 17, 40, 41, 42, 43, 44, 64, 255};
  const unsigned n = lens[vp_enum("length", 0, 12)];
  const bool pre = vp_enum("place", 0, 1);
  schema *s = schema::create().release();
  const token first = s->define_field(pre, std::string("first"), u32, false, false);
  const size_t image = s->preplaced_bytes();
  OUTCOME(r, s->define_field(pre, std::string(n, 'n'), u16, false, false));
  vp_assert(r == (n > 42 ? BADARG : OK), "names up to 42 bytes are accepted, longer ones refused");
  if (r != OK) {
    vp_assert(s->tokens().size() == 1 && s->preplaced_bytes() == image && s->get_token("first") == first, "a refused definition leaves the schema as it was");
    const token next = s->define_field(pre, std::string("next"), u16, false, false);
    vp_assert(pre ? next.preplaced_offset() == 4 : next.id() == 0, "a refused definition takes no place");
  } else
    vp_assert(s->get_token(string_view(std::string(n, 'n'))).type() == u16, "the field is found by its name");
}
VP_OBLIGATION(ob_name_unique) {
  const bool p1 = vp_enum("p1", 0, 1), p2 = vp_enum("p2", 0, 1);
  const unsigned second = vp_enum("second", 0, 5);
  /* names are byte strings: \0 and case matter */
  static const char *const alt[] = {"name", "nam", "name\0", "Name", "", "name\0x"};
  static const uint8_t len[] = {4, 3, 5, 4, 0, 6};
  schema *s = schema::create().release();
  const token a = s->define_field(p1, std::string("name"), u32, false, false);
  const size_t image = s->preplaced_bytes();
  token b;
  OUTCOME(r, b = s->define_field(p2, std::string(alt[second], len[second]), u16, false, false));
  vp_assert(r == (second == 0 ? SCHEMADEF : OK), "exactly a name already taken is refused");
  vp_assert(s->get_token(string_view("name")) == a && s->get_name(a) == string_view("name"), "the first field keeps its name");
  if (r == OK) {
    vp_assert(s->get_token(string_view(alt[second], len[second])) == b && s->get_name(b) == string_view(alt[second], len[second]), "the second field is found by its name, and its name by the identifier");
    vp_assert(!token::is_same(a, b), "different fields have different identifiers");
  } else {
    vp_assert(s->tokens().size() == 1 && s->preplaced_bytes() == image && s->number_of_preplaced() == p1, "a refused definition leaves the schema as it was");
    const token c = s->define_field(p2, std::string("other"), u16, false, false);
    vp_assert(p2 ? c.preplaced_offset() == (p1 ? 4 : 0) : c.id() == 0, "a refused definition takes no place");
  }
}
VP_OBLIGATION(ob_absent_name) {
  schema *s = schema::create().release();
  const bool pre = vp_enum("place", 0, 1);
  const token a = s->define_field(pre, std::string("name"), u32, false, false);
  OUTCOME(r, s->get_token(string_view("eman")));
  vp_assert(r == NOFIELD, "an unknown name is an error");
  OUTCOME(r2, s->get_name(token(u32, 9, false, false, false)));
  vp_assert(r2 == NOFIELD, "an unknown identifier is an error");
  vp_assert(!s->get_token_nothrow(string_view("eman")).is_valid() && s->get_name_nothrow(token(u32, 9, false, false, false)).nil(), "the non-throwing lookups give nothing for unknown ones");
  vp_assert(s->get_token_nothrow(string_view("name")) == a, "the non-throwing lookup finds the field");
}
VP_OBLIGATION(ob_lookup_flags) {
  const bool pre = vp_enum("place", 0, 1), d = vp_enum("discernible", 0, 1), sat = vp_enum("saturated", 0, 1);
  const unsigned od = vp_enum("od", 0, 2), os = vp_enum("os", 0, 2);
  schema *s = schema::create().release();
  const token a = pre ? s->define_preplaced(std::string("n"), u32, d, sat) : s->define_loose(std::string("n"), u32, false, d, sat);
  vp_assert(a.is_discernible_null() == d && a.is_saturated() == sat && a.is_preplaced() == pre && !a.is_collection(), "the identifier has the requested flags");
  const token b = s->get_token(string_view("n"), schema::boolean_option(od), schema::boolean_option(os));
  vp_assert(token::is_same(a, b) && b.is_discernible_null() == (od == 0 ? d : od == 2) && b.is_saturated() == (os == 0 ? sat : os == 2), "a lookup may override the flags and nothing else");
  vp_assert(s->get_name(b) == string_view("n"), "the name is found whatever the flags");
  vp_assert(s->get_token(string_view("n")) == a, "the definition is not changed by lookups");
}
VP_OBLIGATION(ob_loose_ids) {
  const unsigned a = vp_enum("a", 0, 30), b = kind("b");
  const bool coll = vp_enum("collection", 0, 1);
  vp_assume(a != b);
  schema *s = schema::create().release();
  const token p = s->define_preplaced(std::string("p"), genus(a), false, false);
  const token x = s->define_loose(std::string("x"), genus(a), coll, false, false);
  const token y = s->define_loose(std::string("y"), genus(b), !coll, true, false);
  const token z = s->define_loose(std::string("z"), genus(a), !coll, false, true);
  const token w = s->define_loose(std::string("w"), genus(b), coll, true, true);
  vp_assert(x.is_loose() && x.type() == a && z.type() == a && y.type() == b && w.type() == b, "the identifier is of the requested kind and type");
  vp_assert(x.id() == 0 && y.id() == 0 && z.id() == 1 && w.id() == 1, "ids are given in sequence for each type");
  vp_assert(x.is_collection() == coll && y.is_collection() == !coll && z.is_collection() == !coll && w.is_collection() == coll, "the collection flag is the requested one");
  vp_assert(s->number_of_preplaced() == 1 && s->tokens().size() == 5 && s->tokens()[0] == p, "the fields are counted, fixed ones first");
  vp_assert(s->get_name(x) == string_view("x") && s->get_name(y) == string_view("y") && s->get_name(z) == string_view("z") && s->get_name(w) == string_view("w") && s->get_name(p) == string_view("p"), "every field is found by its identifier");
}
VP_OBLIGATION(ob_loose_limit) {
  static const uint16_t ids[] = {0, 1, 7, 1020, 1021, 1022, 1023};
  const unsigned last = ids[vp_enum("last", 0, 6)];
  const unsigned g = vp_enum("type", 0, 30);
  schema *s = schema::create().release();
  s->import_definition(std::string("last"), token(genus(g), last, false, false, false), nullptr, false);
  token t;
  OUTCOME(r, t = s->define_loose(std::string("next"), genus(g), false, false, false));
  vp_assert(r == (last == 1023 ? SCHEMADEF : OK), "1024 loose fields of a type and no more");
  if (r == OK)
    vp_assert(t.id() == last + 1, "ids are given in sequence for each type");
  else
    vp_assert(s->tokens().size() == 1, "a refused definition leaves the schema as it was");
}
/* an imported fixed field must not touch another one */
VP_OBLIGATION(ob_import_overlap) {
  const unsigned a = kind("a"), b = kind("b");
  const unsigned x = 32, y = vp_enum("y", 8, 56);
  schema *s = schema::create().release();
  uint8_t init[64];
  vp_bytes(init, 64, "init");
  s->import_definition(std::string("x"), token(x, genus(a), false, false), nullptr, false);
  const size_t image = s->preplaced_bytes();
  OUTCOME(r, s->import_definition(std::string("y"), token(y, genus(b), false, false), init, false));
  const bool apart = y + bytes_of[b] <= x || x + bytes_of[a] <= y;
  vp_assert(r == (apart ? OK : SCHEMADEF), "exactly fields that overlap another are refused");
  if (r == OK) {
    vp_assert(s->number_of_preplaced() == 2 && s->preplaced_bytes() == (y < x ? x + bytes_of[a] : y + bytes_of[b]), "the image covers all fields exactly");
    const uint8_t *im = static_cast<const uint8_t *>(s->preplaced_init_image());
    const unsigned i = vp_enum("last", 0, 1) ? bytes_of[b] - 1 : 0;
    vp_assert(im[y + i] == init[i], "the initial value is kept at the place of the field");
    if (i < bytes_of[a])
      vp_assert(im[x + i] == 0, "the other fields keep their initial values");
  } else
    vp_assert(s->number_of_preplaced() == 1 && s->preplaced_bytes() == image && s->tokens().size() == 1, "a refused definition leaves the schema as it was");
}
VP_OBLIGATION(ob_import_same) {
  const bool pre = vp_enum("place", 0, 1);
  const bool flag = vp_enum("flag", 0, 1);
  schema *s = schema::create().release();
  const token a = pre ? token(8, u32, false, false) : token(u32, 3, false, false, false);
  const token b = pre ? token(8, u32, flag, flag) : token(u32, 3, false, flag, flag);
  s->import_definition(std::string("x"), a, nullptr, false);
  OUTCOME(r, s->import_definition(std::string("y"), b, nullptr, false));
  vp_assert(r == SCHEMADEF, "an identifier already taken is refused whatever its flags");
  vp_assert(s->tokens().size() == 1 && !s->get_token_nothrow(string_view("y")).is_valid(), "a refused definition leaves the schema as it was");
}
VP_OBLIGATION(ob_import_renominate) {
  const unsigned g = vp_enum("type", 0, 30);
  const bool pre = vp_enum("place", 0, 1), c = vp_enum("collection", 0, 1), d = vp_enum("d", 0, 1), sat = vp_enum("s", 0, 1);
  vp_assume(!(pre && c));
  schema *s = schema::create().release();
  s->define_preplaced(std::string("p"), u8, false, false);
  s->define_loose(std::string("l"), genus(g), false, false, false);
  const token from = pre ? token(100, genus(g), d, sat) : token(genus(g), 77, c, d, sat);
  uint8_t init[64];
  vp_bytes(init, 64, "init");
  const token t = s->import_definition(std::string("n"), from, pre && g > property ? init : nullptr, true);
  vp_assert(t.type() == g && t.is_preplaced() == pre && t.is_discernible_null() == d && t.is_saturated() == sat, "a renumbered definition keeps type and flags");
  if (pre) {
    vp_assert(t.preplaced_offset() == ptrdiff_t(up(1, align_of(g))), "a renumbered definition leaves no gaps");
    const unsigned i = vp_enum("last", 0, 1) ? bytes_of[g] - 1 : 0;
    vp_assert(static_cast<const uint8_t *>(s->preplaced_init_image())[t.preplaced_offset() + i] == (g > property ? init[i] : 0), "a renumbered definition keeps its initial value");
  } else
    vp_assert(t.id() == 1 && t.is_collection() == c, "a renumbered definition leaves no gaps");
  vp_assert(s->get_token(string_view("n")) == t, "the field is found by its name");
}
/* lookups by place: any offset against 0..6 fields of 4 bytes */
VP_OBLIGATION(ob_by_offset) {
  const unsigned n = vp_enum("fields", 0, 8);
  const int64_t at = vp_enum("offset", -1, 35);
  static const char *const names[] = {"a", "b", "c", "d", "e", "f", "g", "h", "i"};
  schema *s = schema::create().release();
  token t[9];
  for (unsigned i = 0; i < n; ++i)
    t[i] = s->define_preplaced(std::string(names[i]), i & 1 ? u16 : u32, false, false);
  if (vp_enum("loose", 0, 1))
    s->define_loose(std::string("loose"), u32, false, false, false);
  token here, next, prev;
  for (unsigned i = 0; i < n; ++i) {
    if (t[i].preplaced_offset() == at) here = t[i];
    if (t[i].preplaced_offset() < at) prev = t[i];
    if (t[n - 1 - i].preplaced_offset() > at) next = t[n - 1 - i];
  }
  const int64_t end = s->preplaced_bytes();
  vp_assert(s->by_offset(at) == here, "the field at an offset is found, and only there");
  if (at >= 0 && at <= end) {
    vp_assert(s->next_by_offset(at) == next, "the next field is the nearest one after the offset");
    vp_assert(s->prev_by_offset(at) == prev, "the previous field is the nearest one before the offset");
  } else
    vp_assert(!s->next_by_offset(at).is_valid() && !s->prev_by_offset(at).is_valid(), "nothing is found beyond the fixed part");
}
VP_OBLIGATION(ob_by_loose) {
  const unsigned n = vp_enum("fields", 0, 9);
  const unsigned g = vp_enum("type", 4, 11), id = vp_enum("id", 0, 3);
  static const char *const names[] = {"a", "b", "c", "d", "e", "f", "g", "h", "i"};
  schema *s = schema::create().release();
  s->define_preplaced(std::string("p"), u32, false, false);
  token want;
  for (unsigned i = 0; i < n; ++i) {
    const unsigned gi = 4 + (i * 5) % 7;
    const token t = s->define_loose(std::string(names[i]), genus(gi), i & 1, i & 2, i & 4);
    if (gi == g && t.id() == id) want = t;
  }
  uint32_t raw = 0;
  field_loose &f = *reinterpret_cast<field_loose *>(&raw);
  f.loose_header = 0;
  f.genus_and_id = uint16_t(g << 11 | id);
  vp_assert(s->by_loose(&f) == want, "a stored field is found in the schema by type and id, and only there");
}
/* initial values appear in new and in reset tuples */
VP_OBLIGATION(ob_initial) {
  const bool d = vp_enum("d", 0, 1), reset = vp_enum("reset", 0, 1);
  schema *s = schema::create().release();
  const uint32_t a0 = uint32_t(vp_u("a", 1, UINT32_MAX));
  const uint64_t c0 = vp_u("c", 1, UINT64_MAX);
  const token a = s->define_preplaced(std::string("a"), u32, d, false, &a0);
  const token b = s->define_preplaced(std::string("b"), i16, d, false, nullptr);
  const token c = s->define_preplaced(std::string("c"), u64, d, false, &c0);
  const token e = s->define_preplaced(std::string("e"), text, d, false, nullptr);
  tuple_rw *t = tuple_rw::create_new(4, 300, s, hippeus::buffer_tag());
  if (reset) {
    t->set_u32(a, 5);
    t->set_i16(b, 6);
    t->set_u64(c, 7);
    t->set_string(e, string_view("text"));
    t->set_u32(token(u32, 5, false, true, false), 8);
    t->reset();
    vp_assert(!t->is_present(token(u32, 5, false, true, false)), "a reset tuple has no loose fields");
  }
  vp_assert(t->get_u32(a) == a0 && t->get_u64(c) == c0, "fields of a new tuple have the initial values of the schema");
  vp_assert(t->is_present(b) == !d && !t->is_present(e), "fields without an initial value are absent or zero");
  if (!d)
    vp_assert(t->get_i16(b) == 0 && t->get_string(e).size() == 0, "fields without an initial value are absent or zero");
  const tuple_ro *ro = t->take_asis();
  vp_assert(ro->get_u32(a) == a0 && ro->get_u64(c) == c0 && ro->is_present(b) == !d, "fields of a new tuple have the initial values of the schema");
}
/* initial values of narrow fields at the very end of the fixed-offset part */
VP_OBLIGATION(ob_initial_tail) {
  schema *s = schema::create().release();
  static const char *const names[] = {"a", "b", "c", "d", "e", "f"};
  const unsigned n = unsigned(vp_enum("narrow fields", 1, 6)), first = unsigned(vp_enum("first", 0, 2)), how = unsigned(vp_enum("how", 0, 2));
  uint8_t v[6];
  token k[6];
  const uint64_t wide = vp_u("wide", 1, UINT64_MAX);
  token w;
  if (first)
    w = s->define_preplaced(std::string("w"), first == 1 ? u64 : u16, false, false, &wide);
  for (unsigned i = 0; i < n; ++i) {
    v[i] = uint8_t(vp_u("v", 0, 255));
    k[i] = s->define_preplaced(std::string(names[i]), u8, false, false, &v[i]);
  }
  if (how < 2) {
    tuple_rw *t = tuple_rw::create_new(4, 300, s, hippeus::buffer_tag());
    if (how == 1) {
      for (unsigned i = 0; i < n; ++i)
        t->set_u8(k[i], 0x55);
      t->reset();
    }
    const tuple_ro *ro = t->take_asis();
    for (unsigned i = 0; i < n; ++i)
      vp_assert(t->get_u8(k[i]) == v[i] && ro->get_u8(k[i]) == v[i], "fields of a new tuple have the initial values of the schema");
    if (first)
      vp_assert(first == 1 ? ro->get_u64(w) == wide : ro->get_u16(w) == uint16_t(wide), "fields of a new tuple have the initial values of the schema");
  } else {
    tuple_rw_managed t(2, 30, s, hippeus::default_allot_tag());
    for (unsigned i = 0; i < n; ++i)
      vp_assert(t.get_u8(k[i]) == v[i], "fields of a new tuple have the initial values of the schema");
    if (first)
      vp_assert(first == 1 ? t.get_u64(w) == wide : t.get_u16(w) == uint16_t(wide), "fields of a new tuple have the initial values of the schema");
  }
}
