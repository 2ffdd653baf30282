/* String views: order, equality, hashing, conversions, bounds; hexadecimal text; names of types; exceptions. */
#include "io.h"
#include <string>
#include <functional>
typedef fptu::string_view sv;
/* shorter first, then bytes as unsigned; absence before emptiness */
static int order(const char *a, int la, const char *b, int lb) {
  if (la != lb)
    return la < lb ? -1 : 1;
  for (int i = 0; i < la; ++i) {
    const unsigned x = (unsigned char)a[i], y = (unsigned char)b[i];
    if (x < y)
      return -1;
    if (x > y)
      return 1;
  }
  return 0;
}
static sv make(const char *p, int n) { return n < 0 ? (vp_enum("nil by", 0, 2) == 0 ? sv() : vp_enum("nil by", 0, 1) ? sv(static_cast<const char *>(nullptr)) : sv(static_cast<const char *>(nullptr), size_t(0))) : sv(p, size_t(n)); }
static void relations(const sv &x, const sv &y, int o) {
  vp_assert((x == y) == (o == 0) && (x != y) == (o != 0), "equality");
  vp_assert((x < y) == (o < 0) && (x > y) == (o > 0) && (x <= y) == (o <= 0) && (x >= y) == (o >= 0), "order");
  const intptr_t c = sv::compare(x, y), d = sv::compare(y, x);
  vp_assert((c < 0) == (o < 0) && (c > 0) == (o > 0) && (d < 0) == (o > 0) && (d > 0) == (o < 0), "three-way comparison");
}
VP_OBLIGATION(ob_compare) {
  const int la = int(vp_enum("length a", -1, 3)), lb = int(vp_enum("length b", -1, 3));
  char *a = static_cast<char *>(vp_alloc(8, 0, "a")), *b = static_cast<char *>(vp_alloc(8, 0, "b"));
  vp_bytes(a, 3, "a");
  vp_bytes(b, 3, "b");
  const sv x = make(a, la), y = make(b, lb);
  const int o = order(a, la, b, lb);
  relations(x, y, o);
}
VP_OBLIGATION(ob_hash) {
  const int n = int(vp_enum("length", -1, 6));
  char *a = static_cast<char *>(vp_alloc(8, 0, "a")), *b = static_cast<char *>(vp_alloc(16, 0, "b"));
  vp_bytes(a, 6, "a");
  for (int i = 0; i < 6; ++i)
    b[i + 3] = a[i];
  const sv x = make(a, n), y = make(b + 3, n);
  relations(x, y, 0);
  vp_assert(x.hash_value() == y.hash_value() && std::hash<sv>()(x) == std::hash<sv>()(y) && std::hash<sv>()(x) == x.hash_value(), "equal strings have equal hashes");
}
/* long strings: one difference anywhere */
VP_OBLIGATION(ob_compare_long) {
  const int n = int(vp_enum("length", 5, 20)), at = int(vp_enum("at", 0, 19));
  vp_assume(at < n);
  char *a = static_cast<char *>(vp_alloc(32, 0, "a")), *b = static_cast<char *>(vp_alloc(32, 0, "b"));
  for (int i = 0; i < n; ++i)
    a[i] = b[i] = char(i * 37);
  vp_bytes(a + at, 1, "a");
  vp_bytes(b + at, 1, "b");
  const unsigned u = (unsigned char)a[at], v = (unsigned char)b[at];
  relations(sv(a, size_t(n)), sv(b, size_t(n)), u < v ? -1 : u > v ? 1 : 0);
  relations(sv(a, size_t(n)), sv(a, size_t(n)), 0);
  relations(sv(a, size_t(at)), sv(b, size_t(n)), -1);
}
VP_OBLIGATION(ob_compare_std) {
  const int la = int(vp_enum("length a", -1, 3)), lb = int(vp_enum("length b", 0, 3));
  char *a = static_cast<char *>(vp_alloc(8, 0, "a")), *b = static_cast<char *>(vp_alloc(8, 0, "b"));
  vp_bytes(a, 3, "a");
  vp_bytes(b, 3, "b");
  const sv x = make(a, la);
  const std::string s(b, size_t(lb));
  const int o = order(a, la, b, lb);
  vp_assert(x.operator==(s) == (o == 0) && x.operator!=(s) == (o != 0) && x.operator<(s) == (o < 0) && x.operator>(s) == (o > 0) && x.operator<=(s) == (o <= 0) && x.operator>=(s) == (o >= 0), "against std::string");
  vp_assert(::operator==(x, s) == (o == 0) && ::operator!=(x, s) == (o != 0) && ::operator<(x, s) == (o < 0) && ::operator>(x, s) == (o > 0) && ::operator<=(x, s) == (o <= 0) && ::operator>=(x, s) == (o >= 0), "against std::string");
  vp_assert(::operator==(s, x) == (o == 0) && ::operator!=(s, x) == (o != 0) && ::operator<(s, x) == (o > 0) && ::operator>(s, x) == (o < 0) && ::operator<=(s, x) == (o >= 0) && ::operator>=(s, x) == (o <= 0), "std::string against");
  relations(sv(s), x, -o);
}
VP_OBLIGATION(ob_extent) {
  const size_t n = vp_u("length", 0, 32767);
  VP_CELLS_U(n, 0, 1, 2, 127, 128, 255, 256, 32766, 32767);
  char *a = static_cast<char *>(vp_alloc(32768, 0, "a"));
  const sv x(a, n), y(a, a + n);
  vp_assert(x.size() == n && x.length() == n && x.empty() == (n == 0) && !x.nil() && x.data() == a, "extent");
  vp_assert(x.begin() == a && x.end() == a + n && x.cbegin() == a && x.cend() == a + n && x.rbegin().base() == a + n && x.rend().base() == a && x.crbegin().base() == a + n && x.crend().base() == a, "iterators");
  vp_assert(y.data() == a && y.size() == n && !y.nil(), "from a range");
  const sv none, null1(static_cast<const char *>(nullptr)), null2(static_cast<const char *>(nullptr), size_t(0)), null3(static_cast<const char *>(nullptr), static_cast<const char *>(nullptr));
  vp_assert(none.nil() && null1.nil() && null2.nil() && null3.nil() && none.empty() && none.size() == 0 && none.data() == nullptr && null1.size() == 0 && null2.size() == 0 && null3.size() == 0, "absence");
  sv p(a, n), q;
  p.swap(q);
  vp_assert(p.nil() && q.data() == a && q.size() == n, "swap");
  p = q;
  vp_assert(p.data() == a && p.size() == n && p == q, "assignment");
}
VP_OBLIGATION(ob_at) {
  static const size_t sizes[] = {0, 1, 2, 127, 128, 299, 300};
  const size_t n = sizes[vp_enum("length", 0, 6)], pos = vp_u("pos", 0, UINT64_MAX);
  VP_CELLS_U(pos, 0, 1, 2, 126, 127, 128, 129, 298, 299, 300, 301, 0x7fffffffffffffff, 0x8000000000000000, UINT64_MAX);
  char *a = static_cast<char *>(vp_alloc(300, 0, "a"));
  const bool nil = vp_enum("nil", 0, 1) != 0;
  const sv x = nil ? sv() : sv(a, n);
  bool refused = false;
  const char *got = nullptr;
  try {
    got = &x.at(pos);
  } catch (const std::out_of_range &) {
    refused = true;
  }
  if (!nil && pos < n)
    vp_assert(!refused && got == a + pos && &x[pos] == got && &x.front() == a && &x.back() == a + n - 1, "inside");
  else
    vp_assert(refused, "outside is refused");
}
VP_OBLIGATION(ob_text) {
  /* from zero-terminated text and to std::string and back */
  const int n = int(vp_enum("length", 0, 5));
  char *a = static_cast<char *>(vp_alloc(size_t(n) + 1, 0, "a"));
  for (int i = 0; i < n; ++i) {
    const uint64_t c = vp_u("char", 1, 255);
    a[i] = char(c);
  }
  a[n] = 0;
  const sv x(static_cast<const char *>(a));
  vp_assert(x.data() == a && x.size() == size_t(n) && !x.nil(), "zero-terminated");
  const std::string s = x;
  vp_assert(s.size() == size_t(n), "to std::string");
  for (int i = 0; i < n; ++i)
    vp_assert(s[size_t(i)] == a[i], "to std::string");
  const sv y(s);
  vp_assert(y.data() == s.data() && y.size() == s.size() && y == x, "from std::string");
  const std::string none = sv();
  vp_assert(none.empty(), "absence gives an empty std::string");
#if HAVE_std_string_view
  const std::string_view w = x;
  vp_assert(w.data() == a && w.size() == size_t(n), "to std::string_view");
  const sv z(w);
  vp_assert(z.data() == a && z.size() == size_t(n), "from std::string_view");
  char other[4] = {'x', 'y', 'z', 0};
  std::string_view v(other, 3);
  sv t;
  t = v;
  vp_assert(t.data() == other && t.size() == 3, "assigned from std::string_view");
  t = x;
  t.swap(v);
  vp_assert(t.data() == other && t.size() == 3 && v.data() == a && v.size() == size_t(n), "swapped with std::string_view");
#endif
}
VP_OBLIGATION(ob_hex) {
  const int n = int(vp_enum("bytes", 0, 3));
  unsigned char *a = static_cast<unsigned char *>(vp_alloc(8, 0, "a"));
  for (int i = 0; i < n; ++i)
    a[i] = (unsigned char)(i == n - 1 ? vp_enum("byte", 0, 255) : i * 0x9e + 0x0a);
  const std::string s = fptu::hexadecimal(a, size_t(n));
  vp_assert(s.size() == size_t(n) * 2, "two digits per byte");
  for (int i = 0; i < n; ++i) {
    static const char d[] = "0123456789abcdef";
    vp_assert(s[size_t(i) * 2] == d[a[i] >> 4] && s[size_t(i) * 2 + 1] == d[a[i] & 15], "the digits of the byte");
  }
}
VP_OBLIGATION(ob_names) {
  static const char *const names[32] = {"text", "varbin", "nested", "property", "i8", "u8", "i16", "u16", "i32", "u32", "f32", "t32", "i64", "u64", "f64", "d64", "t64", "bin96", "bin128", "bin160", "bin192", "bin224", "bin256", "bin320", "bin384", "bin512", "app_reserved_64", "app_reserved_128", "mac", "ip", "ipnet", "hole"};
  static const genus types[32] = {text, varbin, nested, property, i8, u8, i16, u16, i32, u32, f32, t32, i64, u64, f64, d64, t64, bin96, bin128, bin160, bin192, bin224, bin256, bin320, bin384, bin512, app_reserved_64, app_reserved_128, mac, ip, ipnet, hole};
  const int i = int(vp_enum("type", 0, 31));
  const sv got = std::to_string(types[i]);
  vp_assert(got == sv(names[i]), "the name of a type is that of its enumerator");
}
#define THROWS(TYPE, BASE, CALL)                                               \
  do {                                                                         \
    bool own = false, base = false;                                            \
    try {                                                                      \
      CALL;                                                                    \
    } catch (const fptu::TYPE &) {                                             \
      own = true;                                                              \
    } catch (...) {                                                            \
    }                                                                          \
    try {                                                                      \
      CALL;                                                                    \
    } catch (const BASE &) {                                                   \
      base = true;                                                             \
    } catch (...) {                                                            \
    }                                                                          \
    vp_assert(own, #TYPE);                                                     \
    vp_assert(base, #TYPE " is a " #BASE);                                     \
  } while (0)
VP_OBLIGATION(ob_exceptions) {
  switch (vp_enum("which", 0, 17)) {
  case 0: THROWS(tuple_hollow, std::invalid_argument, fptu::throw_tuple_hollow()); break;
  case 1: THROWS(invalid_argument, std::invalid_argument, fptu::throw_invalid_argument()); break;
  case 2: THROWS(invalid_argument, std::invalid_argument, fptu::throw_invalid_argument("x")); break;
  case 3: THROWS(invalid_allot, std::invalid_argument, fptu::throw_invalid_allot()); break;
  case 4: THROWS(invalid_schema, std::invalid_argument, fptu::throw_invalid_schema()); break;
  case 5: THROWS(type_mismatch, std::logic_error, fptu::throw_type_mismatch()); break;
  case 6: THROWS(index_corrupted, std::logic_error, fptu::throw_index_corrupted()); break;
  case 7: THROWS(field_absent, std::runtime_error, fptu::throw_field_absent()); break;
  case 8: THROWS(collection_unallowed, std::logic_error, fptu::throw_collection_unallowed()); break;
  case 9: THROWS(collection_required, std::logic_error, fptu::throw_collection_required()); break;
  case 10: THROWS(value_is_denil, std::range_error, fptu::throw_value_denil()); break;
  case 11: THROWS(value_out_of_range, std::out_of_range, fptu::throw_value_range()); break;
  case 12: THROWS(value_too_long, std::length_error, fptu::throw_value_too_long()); break;
  case 13: THROWS(tuple_too_large, std::length_error, fptu::throw_tuple_too_large()); break;
  case 14: THROWS(insufficient_space, std::bad_alloc, fptu::throw_insufficient_space(1, 2)); break;
  case 15: THROWS(tuple_overflow, std::logic_error, fptu::throw_tuple_overflow()); break;
  case 16: THROWS(schema_mismatch, std::logic_error, fptu::throw_schema_mismatch()); break;
  case 17: THROWS(schema_definition_error, std::logic_error, fptu::throw_schema_definition_error("x")); break;
  }
}
VP_OBLIGATION(ob_space_account) {
  const size_t a = vp_u("index", 0, UINT64_MAX), b = vp_u("data", 0, UINT64_MAX);
  try {
    fptu::throw_insufficient_space(a, b);
    vp_fail("returns");
  } catch (const fptu::insufficient_space &e) {
    vp_assert(e.index_space == a && e.data_space == b, "says how much is missing");
  }
}
