/* Field identifiers (tokens): what goes in comes out, invalid parts are refused, identity and order. */
#include "common.h"
using namespace fptu;
using namespace fptu::details;

static genus any_type(const char *name) { return genus(vp_enum(name, 0, 30)); }
static bool flag(const char *n) { return vp_enum(n, 0, 1) != 0; }

static bool stretchy(unsigned g) { return g <= 3; }
static bool sgn(unsigned g) { return g == 4 || g == 6 || g == 8 || g == 12; }
static bool uns(unsigned g) { return g == 5 || g == 7 || g == 9 || g == 13; }
static bool flt(unsigned g) { return g == 10 || g == 14 || g == 15; }

static size_t bytes_of(unsigned g) {
  static const uint8_t n[31] = {4, 4, 4, 4, 1, 1, 2, 2, 4, 4, 4, 4, 8, 8, 8, 8, 8, 12, 16, 20, 24, 28, 32, 40, 48, 64, 8, 16, 8, 16, 20};
  return n[g];
}

static void classes(const token &k, unsigned g) {
  vp_assert(k.is_stretchy() == stretchy(g), "variable-length types are text, varbin, nested, property");
  vp_assert(k.is_integer() == (sgn(g) || uns(g)), "integer types");
  vp_assert(k.is_unsigned() == uns(g), "unsigned types");
  vp_assert(k.is_signed() == (sgn(g) || flt(g)), "signed types");
  vp_assert(k.is_float() == flt(g), "floating types");
  vp_assert(k.is_number() == (sgn(g) || uns(g) || flt(g)), "number types");
  vp_assert(k.is_text() == (g == 0), "text type");
  vp_assert(k.is_bool() == (g == 4), "boolean type");
  vp_assert(k.is_enum() == (g == 6), "enumeration type");
  vp_assert(k.is_decimal() == (g == 15), "decimal type");
}

VP_OBLIGATION(ob_token_loose) {
  const genus g = any_type("type");
  const bool c = flag("collection"), d = flag("discernible"), s = flag("saturated");
  const unsigned id = unsigned(vp_u("id", 0, 2047));
  VP_CELLS_U(id, 0, 1, 1023, 1024, 2046, 2047);
  OUTCOME(r, token(g, id, c, d, s));
  vp_assert(r == OK, "every valid (type, id) makes an identifier");
  const token k(g, id, c, d, s);
  vp_assert(k.is_valid(), "a made identifier is valid");
  vp_assert(k.type() == g, "the type reads back");
  vp_assert(k.id() == id, "the id reads back");
  vp_assert(k.is_loose(), "it is a loose field");
  vp_assert(!k.is_preplaced(), "it is not a preplaced field");
  vp_assert(k.is_collection() == c, "the collection flag reads back");
  vp_assert(k.is_discernible_null() == d, "the NULL flag reads back");
  vp_assert(k.is_saturated() == s, "the saturation flag reads back");
  vp_assert(k.is_rangechecking() == !s, "range checking is the opposite of saturation");
  vp_assert(k.is_inlay() == (id >= 1024), "the upper half of ids is for inlays");
  classes(k, g);
}

VP_OBLIGATION(ob_token_preplaced) {
  const genus g = any_type("type");
  const bool d = flag("discernible"), s = flag("saturated");
  const uint64_t off = vp_u("offset", 0, 16381);
  VP_CELLS_U(off, 0, 1, 16380, 16381);
  OUTCOME(r, token(ptrdiff_t(off), g, d, s));
  vp_assert(r == OK, "every valid (offset, type) makes an identifier");
  const token k(ptrdiff_t(off), g, d, s);
  vp_assert(k.is_valid(), "a made identifier is valid");
  vp_assert(k.type() == g, "the type reads back");
  vp_assert(uint64_t(k.preplaced_offset()) == off, "the offset reads back");
  vp_assert(k.preplaced_size() == bytes_of(g), "the size is the size of the type");
  vp_assert(k.is_preplaced(), "it is a preplaced field");
  vp_assert(!k.is_loose(), "it is not a loose field");
  vp_assert(!k.is_collection(), "a preplaced field is no collection");
  vp_assert(!k.is_inlay(), "a preplaced field is no inlay");
  vp_assert(k.is_discernible_null() == d, "the NULL flag reads back");
  vp_assert(k.is_saturated() == s, "the saturation flag reads back");
  classes(k, g);
}

VP_OBLIGATION(ob_token_refused_id) {
  const genus g = any_type("type");
  const uint64_t id = vp_u("id", 2048, UINT32_MAX);
  OUTCOME(r, token(g, unsigned(id), false, false, false));
  vp_assert(r == BADARG, "an id beyond the limit is refused");
}
VP_OBLIGATION(ob_token_refused_type) {
  const uint64_t g = vp_u("type", 31, UINT32_MAX);
  VP_CELLS_U(g, 31, 32, 33, 63, 64);
  const uint64_t id = vp_u("id", 0, 2047);
  OUTCOME(r, token(genus(g), unsigned(id), false, false, false));
  vp_assert(r == BADARG, "an unknown type is refused");
}
VP_OBLIGATION(ob_token_refused_offset) {
  const genus g = any_type("type");
  const int64_t off = vp_i("offset", INT64_MIN, INT64_MAX);
  VP_CELLS_I(off, INT64_MIN, -1, 0, 16381, 16382, 16383, 16384, INT64_MAX);
  vp_assume(off < 0 || off > 16381);
  OUTCOME(r, token(ptrdiff_t(off), g, false, false));
  vp_assert(r == BADARG, "an offset outside of the preplaced area is refused");
}

static void order(const token &a, const token &b, bool same, bool less, bool more) {
  vp_assert(token::is_same(a, b) == same, "identity: loose by type and id, preplaced by offset and type, whatever the flags");
  vp_assert((a < b) == less, "order: preplaced first by offset, then loose by type and id");
  vp_assert((b < a) == more, "order is antisymmetric");
  vp_assert((a > b) == more && (a >= b) == !less && (a <= b) == !more, "the derived comparisons agree");
  const token::same same_fn{};
  vp_assert(same_fn(a, b) == same, "the equality functor agrees");
}

VP_OBLIGATION(ob_token_order_loose) {
  const genus g1 = any_type("type1"), g2 = any_type("type2");
  const unsigned id1 = unsigned(vp_u("id1", 0, 2047)), id2 = unsigned(vp_u("id2", 0, 2047));
  const unsigned f = unsigned(vp_enum("flags", 0, 3)) * 21; /* 0, 010101, 101010, 111111 */
  const token a(g1, id1, f & 1, f & 2, f & 4), b(g2, id2, f & 8, f & 16, f & 32);
  if (g1 != g2)
    order(a, b, false, g1 < g2, g1 > g2);
  else if (id1 == id2)
    order(a, b, true, false, false);
  else if (id1 < id2)
    order(a, b, false, true, false);
  else
    order(a, b, false, false, true);
}
VP_OBLIGATION(ob_token_order_preplaced) {
  const genus g1 = any_type("type1"), g2 = any_type("type2");
  const int64_t o1 = int64_t(vp_u("offset1", 0, 16381)), o2 = int64_t(vp_u("offset2", 0, 16381));
  const unsigned f = unsigned(vp_enum("flags", 0, 3)) * 5;
  if (o1 == o2) {
    const token a(o1, g1, f & 1, f & 2), b(o1, g2, f & 4, f & 8);
    vp_assert(token::is_same(a, b) == (g1 == g2), "identity: preplaced by offset and type, whatever the flags");
    vp_assert((a < b) == (g1 < g2), "order of preplaced at one offset");
  } else {
    const token a(o1, g1, f & 1, f & 2), b(o2, g2, f & 4, f & 8);
    if (o1 < o2)
      order(a, b, false, true, false);
    else
      order(a, b, false, false, true);
  }
}
VP_OBLIGATION(ob_token_order_mixed) {
  const genus g1 = any_type("type1"), g2 = any_type("type2");
  const int64_t o1 = int64_t(vp_u("offset1", 0, 16381));
  const unsigned id2 = unsigned(vp_u("id2", 0, 2047));
  const unsigned f = unsigned(vp_enum("flags", 0, 3)) * 11;
  const token a(o1, g1, f & 1, f & 2), b(g2, id2, f & 4, f & 8, f & 16);
  order(a, b, false, true, false);
  order(b, a, false, false, true);
}
VP_OBLIGATION(ob_token_equal) {
  const genus g = any_type("type");
  const unsigned id = unsigned(vp_u("id", 0, 2047));
  const bool c = flag("c"), d = flag("d"), s = flag("s"), c2 = flag("c2"), d2 = flag("d2"), s2 = flag("s2");
  const token a(g, id, c, d, s), b(g, id, c2, d2, s2);
  vp_assert((a == b) == (c == c2 && d == d2 && s == s2), "full equality needs equal flags");
  vp_assert((a != b) == !(c == c2 && d == d2 && s == s2), "inequality is the opposite");
  const token::hash h{};
  vp_assert(h(a) == h(b), "equal identities hash alike");
}
VP_OBLIGATION(ob_token_enforce) {
  const genus g = any_type("type");
  const bool pre = flag("preplaced"), c = flag("c"), d = flag("d"), s = flag("s");
  const unsigned n = unsigned(vp_u("id", 0, 2047));
  token k = pre ? token(ptrdiff_t(n), g, d, s) : token(g, n, c, d, s);
  const bool v = flag("value");
  if (flag("which")) {
    k.enforce_discernible_null(v);
    vp_assert(k.is_discernible_null() == v && k.is_saturated() == s, "only the NULL flag changes");
  } else {
    k.enforce_saturation(v);
    vp_assert(k.is_discernible_null() == d && k.is_saturated() == v, "only the saturation flag changes");
  }
  vp_assert(k.is_preplaced() == pre && k.type() == g, "the identity stays");
  if (pre)
    vp_assert(unsigned(k.preplaced_offset()) == n, "the offset stays");
  else
    vp_assert(k.id() == n && k.is_collection() == c, "the id stays");
}
VP_OBLIGATION(ob_token_default) {
  const token k;
  vp_assert(!k.is_valid(), "the default identifier is not valid");
}

/* checked casts */
VP_OBLIGATION(ob_token_casts) {
  const genus g = any_type("type");
  const bool pre = flag("preplaced");
  const unsigned n = unsigned(vp_u("id", 0, 2047));
  const token k = pre ? token(ptrdiff_t(n), g) : token(g, n);
  {
    OUTCOME(r, token_preplaced x(k); vp_assert(x.tag() == k.tag(), "a cast keeps the identifier"));
    vp_assert(r == (pre ? OK : MISMATCH), "the preplaced cast takes preplaced identifiers only");
  }
  {
    OUTCOME(r, token_loose x(k); vp_assert(x.tag() == k.tag(), "a cast keeps the identifier"));
    vp_assert(r == (pre ? MISMATCH : OK), "the loose cast takes loose identifiers only");
  }
#define CAST(G)                                                                \
  do {                                                                         \
    OUTCOME(r, (cast_typecheck<genus(G), token>(k)));                          \
    vp_assert(r == (g == genus(G) ? OK : MISMATCH), "the type cast takes its type only"); \
  } while (0)
  CAST(text); CAST(varbin); CAST(nested); CAST(property); CAST(i8); CAST(u8); CAST(i16); CAST(u16);
  CAST(i32); CAST(u32); CAST(f32); CAST(t32); CAST(i64); CAST(u64); CAST(f64); CAST(d64); CAST(t64);
  CAST(bin96); CAST(bin128); CAST(bin160); CAST(bin192); CAST(bin224); CAST(bin256); CAST(bin320);
  CAST(bin384); CAST(bin512); CAST(app_reserved_64); CAST(app_reserved_128); CAST(mac); CAST(ip); CAST(ipnet);
}
