/* Variable-length values: length and bytes come back unchanged for every length the format can hold, longer ones are
   refused before anything changes, the footprint is exactly what the format says, neighbours stay. */
#include "fixture.h"

enum { SPACE = 300000, ROOM = 261000 };
static const uint64_t text_max = 65535 * 2 + 255, varbin_max = 65534 * 4, property_max = 255;

struct scene : fixture {
  char *src;
  size_t len;
};
static fixture wide(int place, genus g, bool d) {
  fixture f;
  if (place == 0) {
    f.s = nullptr;
    f.t = vp_fresh(8, ROOM);
    f.lo = token(u32, 6, false, true, false);
    f.k = token(g, 7, false, d, false);
    f.hi = token(u32, 8, false, true, false);
  } else {
    f.s = schema::create().release();
    f.lo = f.s->define_preplaced(std::string("lo"), u32, false, false, nullptr);
    f.k = f.s->define_preplaced(std::string("field"), g, d, false, nullptr);
    f.hi = f.s->define_preplaced(std::string("hi"), u32, false, false, nullptr);
    f.t = tuple_rw::create_new(4, ROOM - 100, f.s, hippeus::buffer_tag());
  }
  f.t->set_u32(f.lo, 0xA5A5A5A5u);
  f.t->set_u32(f.hi, 0x5A5A5A5Au);
  return f;
}
static size_t units(size_t bytes) { return (bytes + 3) / 4; }

template <typename GET> static void check(const char *src, size_t len, GET get) {
  const string_view v = get();
  vp_assert(v.size() == len, "the length reads back");
  if (len <= 12)
    for (size_t i = 0; i < len; ++i)
      vp_assert(vp_same(uint8_t(v.data()[i]), uint8_t(src[i])), "every byte reads back");
  vp_assert(vp_same(uint8_t(v.data()[0]), uint8_t(src[0])), "the first byte reads back");
  vp_assert(vp_same(uint8_t(v.data()[len - 1]), uint8_t(src[len - 1])), "the last byte reads back");
}
template <typename GET> static void check_any(const char *src, size_t i, GET get) {
  const string_view v = get();
  vp_assert(vp_same(uint8_t(v.data()[i]), uint8_t(src[i])), "every byte reads back");
}
/* a length, as four times something plus a rest */
static size_t any_length(uint64_t max, const uint64_t *pts, size_t n) {
  const size_t r = size_t(vp_enum("length mod 4", 0, 3));
  const size_t q = size_t(vp_u("length div 4", 0, max / 4));
  vp_cells_u(q, pts, n);
  const size_t len = q * 4 + r;
  vp_assume(len >= 1);
  vp_assume(len <= max);
  return len;
}
#define LENGTH(MAX, ...) \
  static const uint64_t pts_[] = {__VA_ARGS__}; \
  const size_t len = any_length(MAX, pts_, sizeof(pts_) / 8)

VP_OBLIGATION(ob_text) {
  const int place = int(vp_enum("place", 0, 1));
  const bool d = vp_enum("discernible", 0, 1);
  fixture f = wide(place, text, d);
  LENGTH(text_max, 0, 1, 62, 63, 64, 65, 16382, 16383, 16384, 32767, 32768, text_max / 4);
  char *src = static_cast<char *>(vp_alloc(SPACE, 0, "source"));
  const size_t before = f.t->brutto_size();
  f.t->set_string(f.k, string_view(src, len));
  check(src, len, [&] { return f.t->get_string(f.k); });
  vp_assert(f.t->brutto_size() == before + (place ? 0 : 4) + 4 * units(len + (len < 254 ? 1 : 3)), "the footprint is that of the format");
  vp_neighbours(f, f.t);
  const tuple_ro *ro = f.t->take_asis();
  check(src, len, [&] { return ro->get_string(f.k); });
  vp_neighbours(f, ro);
}
VP_OBLIGATION(ob_text_too_long) {
  const int place = int(vp_enum("place", 0, 1));
  fixture f = wide(place, text, true);
  const size_t len = size_t(vp_u("length", text_max + 1, UINT64_MAX / 2));
  char *src = static_cast<char *>(vp_alloc(SPACE, 0, "source"));
  const size_t before = f.t->brutto_size();
  OUTCOME(r, f.t->set_string(f.k, string_view(src, len)));
  vp_assert(r == TOOLONG, "a text beyond the limit is refused");
  vp_assert(f.t->brutto_size() == before && !f.t->is_present(f.k), "a refused set changes nothing");
  vp_neighbours(f, f.t);
}
VP_OBLIGATION(ob_varbin) {
  const int place = int(vp_enum("place", 0, 1));
  const bool d = vp_enum("discernible", 0, 1);
  fixture f = wide(place, varbin, d);
  LENGTH(250000, 0, 1, 2, 63, 64, 65, 16383, 16384, 32767, 32768, 62500);
  char *src = static_cast<char *>(vp_alloc(SPACE, 0, "source"));
  const size_t before = f.t->brutto_size();
  f.t->set_varbinary(f.k, string_view(src, len));
  check(src, len, [&] { return f.t->get_varbinary(f.k); });
  vp_assert(f.t->brutto_size() == before + (place ? 0 : 4) + 4 * (units(len) + 1), "the footprint is that of the format");
  vp_neighbours(f, f.t);
  const tuple_ro *ro = f.t->take_asis();
  check(src, len, [&] { return ro->get_varbinary(f.k); });
  vp_neighbours(f, ro);
}
VP_OBLIGATION(ob_varbin_too_long) {
  const int place = int(vp_enum("place", 0, 1));
  fixture f = wide(place, varbin, true);
  const size_t len = size_t(vp_u("length", varbin_max + 1, UINT64_MAX / 2));
  char *src = static_cast<char *>(vp_alloc(SPACE, 0, "source"));
  const size_t before = f.t->brutto_size();
  OUTCOME(r, f.t->set_varbinary(f.k, string_view(src, len)));
  vp_assert(r == TOOLONG, "a binary beyond the limit is refused");
  vp_assert(f.t->brutto_size() == before && !f.t->is_present(f.k), "a refused set changes nothing");
  vp_neighbours(f, f.t);
}
VP_OBLIGATION(ob_property) {
  const int place = int(vp_enum("place", 0, 1));
  const bool d = vp_enum("discernible", 0, 1);
  fixture f = wide(place, property, d);
  LENGTH(property_max, 0, 1, 2, 31, 32, 62, 63);
  const int8_t id = int8_t(vp_i("id", -128, 127));
  char *src = static_cast<char *>(vp_alloc(SPACE, 0, "source"));
  const size_t before = f.t->brutto_size();
  f.t->set_property(f.k, property_pair(string_view(src, len), id));
  check(src, len, [&] { return f.t->get_property(f.k).first; });
  vp_assert(f.t->get_property(f.k).second == id, "the id reads back");
  vp_assert(f.t->brutto_size() == before + (place ? 0 : 4) + 4 * units(len + 2), "the footprint is that of the format");
  vp_neighbours(f, f.t);
  const tuple_ro *ro = f.t->take_asis();
  check(src, len, [&] { return ro->get_property(f.k).first; });
  vp_assert(ro->get_property(f.k).second == id, "the id reads back");
  vp_neighbours(f, ro);
}
VP_OBLIGATION(ob_property_no_data) {
  const int place = int(vp_enum("place", 0, 1));
  fixture f = wide(place, property, false);
  const int8_t id = int8_t(vp_i("id", -128, 127));
  vp_assume(id != 0);
  f.t->set_property(f.k, property_pair(string_view(), id));
  vp_assert(f.t->get_property(f.k).first.size() == 0 && f.t->get_property(f.k).second == id, "a property without data reads back");
}
VP_OBLIGATION(ob_property_too_long) {
  const int place = int(vp_enum("place", 0, 1));
  fixture f = wide(place, property, true);
  const size_t len = size_t(vp_u("length", property_max + 1, UINT64_MAX / 2));
  VP_CELLS_U(len, 256, 257, 65535, 65536);
  char *src = static_cast<char *>(vp_alloc(SPACE, 0, "source"));
  const size_t before = f.t->brutto_size();
  OUTCOME(r, f.t->set_property(f.k, property_pair(string_view(src, len), 3)));
  vp_assert(r == TOOLONG, "a property beyond the limit is refused");
  vp_assert(f.t->brutto_size() == before && !f.t->is_present(f.k), "a refused set changes nothing");
  vp_neighbours(f, f.t);
}

/* any byte of a longer value */
#define ANY(NAME, G, LO, MAX, SET, GET)                                        \
  VP_OBLIGATION(ob_any_##NAME) {                                               \
    fixture f = wide(int(vp_enum("place", 0, 1)), G, true);                    \
    const size_t r = size_t(vp_enum("length mod 4", 0, 3));                    \
    const size_t q = size_t(vp_u("length div 4", LO, (MAX) / 4 - 1));          \
    VP_CELLS_U(q, LO, 63, 64, (MAX) / 4 - 1);                                  \
    const size_t len = q * 4 + r;                                              \
    char *src = static_cast<char *>(vp_alloc(SPACE, 0, "source"));             \
    SET;                                                                       \
    const size_t i = size_t(vp_u("index", 0, 300000));                         \
    vp_assume(i < len);                                                        \
    check_any(src, i, [&] { return f.t->GET; });                             \
    const tuple_ro *ro = f.t->take_asis();                                     \
    check_any(src, i, [&] { return ro->GET; });                              \
  }
ANY(text, text, 33, text_max, f.t->set_string(f.k, string_view(src, len)), get_string(f.k))
ANY(varbin, varbin, 33, 250000, f.t->set_varbinary(f.k, string_view(src, len)), get_varbinary(f.k))
ANY(property, property, 33, 256, f.t->set_property(f.k, property_pair(string_view(src, len), 3)), get_property(f.k).first)
/* nested tuples: an image of any size is copied whole */
VP_OBLIGATION(ob_nested) {
  const int place = int(vp_enum("place", 0, 1));
  const bool d = vp_enum("discernible", 0, 1);
  fixture f = wide(place, nested, d);
  const size_t q = size_t(vp_u("units", 2, 60000));
  VP_CELLS_U(q, 2, 3, 255, 256, 257, 32767, 32768, 60000);
  char *src = static_cast<char *>(vp_alloc(SPACE, 0, "source"));
  *reinterpret_cast<uint16_t *>(src) = uint16_t(q);
  *reinterpret_cast<uint16_t *>(src + 2) = 0;
  const size_t before = f.t->brutto_size();
  f.t->set_nested(f.k, reinterpret_cast<const tuple_ro *>(src));
  const tuple_ro *n = f.t->get_nested(f.k);
  vp_assert(n != nullptr && n->size() == 4 * q, "the size of the nested tuple reads back");
  vp_assert(vp_same(reinterpret_cast<const uint8_t *>(n)[4], uint8_t(src[4])) && vp_same(reinterpret_cast<const uint8_t *>(n)[4 * q - 1], uint8_t(src[4 * q - 1])), "its bytes read back");
  vp_assert(f.t->brutto_size() == before + (place ? 0 : 4) + 4 * q, "the footprint is that of the nested tuple");
  vp_neighbours(f, f.t);
  const tuple_ro *ro = f.t->take_asis();
  const tuple_ro *m = ro->get_nested(f.k);
  vp_assert(m != nullptr && m->size() == 4 * q, "the size of the nested tuple reads back from the finished tuple");
  vp_assert(vp_same(reinterpret_cast<const uint8_t *>(m)[4 * q - 1], uint8_t(src[4 * q - 1])), "its bytes read back");
  vp_neighbours(f, ro);
}
/* elements of a collection take the same ways */
#define ELEMENT(NAME, G, MAX, INSERT, GET)                                     \
  VP_OBLIGATION(ob_element_##NAME) {                                           \
    const bool d = vp_enum("discernible", 0, 1);                               \
    tuple_rw *t = vp_fresh(8, ROOM);                                           \
    const token k(G, 7, true, d, false);                                       \
    LENGTH(MAX, 0, 1, 62, 63, 64, 65, (MAX) / 4);                              \
    char *src = static_cast<char *>(vp_alloc(SPACE, 0, "source"));             \
    INSERT;                                                                    \
    unsigned n = 0;                                                            \
    for (const auto &i : t->collection(k)) {                                   \
      check(src, len, [&] { return i.GET; });                                  \
      ++n;                                                                     \
    }                                                                          \
    vp_assert(n == 1, "the collection has the element");                       \
    const tuple_ro *ro = t->take_asis();                                       \
    for (const auto &i : ro->collection(k))                                    \
      check(src, len, [&] { return i.GET; });                                  \
  }
ELEMENT(text, text, text_max, t->insert_string(k, string_view(src, len)), get_string())
ELEMENT(varbin, varbin, 250000, t->insert_varbinary(k, string_view(src, len)), get_varbinary())
ELEMENT(property, property, property_max, t->insert_property(k, property_pair(string_view(src, len), 3)), get_property().first)
/* rewriting with another length and erasing: the tuple stays well-formed and the space comes back */
static const unsigned sizes_text[] = {1, 2, 3, 4, 252, 253, 254, 255, 256, 257, 258, 259, 260, 65535, 65538, 131070, 131073, 131325};
static const unsigned sizes_varbin[] = {1, 2, 3, 4, 5, 8, 9, 254, 255, 256, 257, 1027, 65535, 65536, 65538, 120001};
static const unsigned sizes_property[] = {1, 2, 3, 4, 5, 6, 7, 126, 127, 128, 129, 252, 253, 254, 255};
enum { N_text = sizeof(sizes_text) / 4, N_varbin = sizeof(sizes_varbin) / 4, N_property = sizeof(sizes_property) / 4 };
static void store(fixture &f, genus g, const char *src, size_t len) {
  if (g == text)
    f.t->set_string(f.k, string_view(src, len));
  else if (g == varbin)
    f.t->set_varbinary(f.k, string_view(src, len));
  else
    f.t->set_property(f.k, property_pair(string_view(src, len), 0x1234));
}
template <typename T> static string_view fetch(const T *t, const token &k, genus g) {
  return g == text ? t->get_string(k) : g == varbin ? t->get_varbinary(k) : t->get_property(k).first;
}
static void rewrite(genus g, const unsigned *sizes, int n, int place) {
  fixture f = wide(place, g, true);
  char *src = static_cast<char *>(vp_alloc(140000, 0, "source"));
  char *src2 = static_cast<char *>(vp_alloc(140000, 0, "source2"));
  const size_t before = f.t->brutto_size();
  const size_t a = sizes[vp_enum("first", 0, n - 1)], b = sizes[vp_enum("second", 0, n - 1)];
  store(f, g, src, a);
  vp_assert(f.t->audit() == nullptr, "the tuple stays well-formed");
  store(f, g, src2, b);
  vp_assert(f.t->audit() == nullptr, "the tuple stays well-formed");
  check(src2, b, [&] { return fetch(f.t, f.k, g); });
  const tuple_ro *ro = f.t->take_asis();
  vp_assert(tuple_ro::audit(ro, ro->size(), f.s, false) == nullptr, "the finished tuple is well-formed");
  check(src2, b, [&] { return fetch(ro, f.k, g); });
  if (!place && (a > 8000 || b > 8000))
    return; /* see the known finding about released pieces of more than 2047 units */
  vp_assert(f.t->erase(f.k) && !f.t->is_present(f.k), "the field is erased");
  vp_assert(f.t->audit() == nullptr, "the tuple stays well-formed");
  vp_assert(f.t->brutto_size() == before && f.t->junk_bytes() == 0, "erasing gives the space back");
  vp_neighbours(f, f.t);
}
#define X(G) VP_OBLIGATION(ob_rewrite_##G) { rewrite(G, sizes_##G, N_##G, 0); } VP_OBLIGATION(ob_rewrite_pre_##G) { rewrite(G, sizes_##G, N_##G, 1); }
X(text) X(varbin) X(property)
#undef X
