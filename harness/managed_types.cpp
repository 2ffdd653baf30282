/* Every setter and inserter, of every type, of the self-growing tuple and of the one with fixed room: the self-growing one stores
   the value whatever room is left, the fixed one stores it if there is room and otherwise refuses and stays as it was. */
#include "io.h"
typedef tuple_rw_managed rwm;
typedef tuple_rw_fixed rwf;
static hippeus::buffer_tag tag() { return hippeus::default_allot_tag(); }
static const token M1(u32, 900, false, true, false), M2(varbin, 901, false, true, false);

/* takes all the room */
static unsigned fill(rwf &t, bool index, bool data) {
  unsigned n = 0;
  if (data) {
    static const char zeros[600] = {};
    const size_t left = t.tail_space_bytes();
    if (left >= 4 && t.head_space()) {
      t.set_varbinary(M2, string_view(zeros, left - 4));
      ++n;
    }
  }
  if (index)
    while (t.head_space())
      t.set_u8(token(u8, 800 + n, false, true, false), uint8_t(n)), ++n;
  return n;
}
template <typename PUT, typename GOT> static void go(genus g, PUT put, GOT got, bool inplace) {
  const bool many = vp_enum("insert", 0, 1) != 0;
  const unsigned mode = unsigned(vp_enum("mode", 0, 4));
  const token k(g, 5, many, true, false), r(g, 5, false, true, false);
  const uint64_t before = vp_heap();
  {
    rwm t(3, 16, nullptr, tag());
    rwf f(3, mode == 4 ? 120 : 16, nullptr, tag());
    rwf &x = mode < 3 ? t : f;
    x.set_u32(M1, 0x12345678u);
    const unsigned n = mode == 4 ? 0 : fill(x, mode == 0 || mode == 2 || (mode == 3 && inplace), mode == 1 || mode == 2 || (mode == 3 && !inplace));
    const size_t count = x.loose_count();
    bool short_ = false;
    if (mode < 3)
      put(t, k, many);
    else
      try {
        put(f, k, many);
      } catch (const insufficient_space &) {
        short_ = true;
      }
    vp_assert(short_ == (mode == 3), "lack of room is reported exactly if there is no room");
    vp_assert(x.loose_count() == count + (short_ ? 0 : 1), "one field is added");
    vp_assert(x.is_present(r) == !short_, "it is there");
    vp_assert(x.get_u32(M1) == 0x12345678u && x.validate() == nullptr, "the rest is as it was");
    (void)n;
    if (!short_) {
      vp_assert(got(x, r), "the value reads back");
      const tuple_ro_weak w = x.take_weak_asis();
      vp_assert(got(w, r), "the value reads back from the finished tuple");
    }
  }
  vp_assert(vp_heap() == before, "the buffers are released");
}
template <typename T> static T some() {
  return T(std::is_signed<T>::value ? vp_i("value", std::numeric_limits<T>::min(), std::numeric_limits<T>::max()) : (int64_t)vp_u("value", 0, std::numeric_limits<T>::max()));
}
#define GO(NAME, G, V, CHECK, INPLACE) go(genus::G, [&](auto &t, const token &k, bool many) { if (many) (void)t.insert_##NAME(k, V); else t.set_##NAME(k, V); }, [&](const auto &t, const token &k) { return CHECK; }, INPLACE)
#define INT(OB, NAME, T, G, READ, INPLACE) VP_OBLIGATION(ob_store_##OB) { const T v = some<T>(); GO(NAME, G, v, t.READ(k) == v, INPLACE); }
INT(i8, i8, int8_t, i8, get_i8, true)
INT(u8, u8, uint8_t, u8, get_u8, true)
INT(i16, i16, int16_t, i16, get_i16, true)
INT(u16, u16, uint16_t, u16, get_u16, true)
INT(enum, enum, short, enumeration, get_enum, true)
INT(i32, i32, int32_t, i32, get_i32, false)
INT(u32, u32, uint32_t, u32, get_u32, false)
INT(i64, i64, int64_t, i64, get_i64, false)
INT(u64, u64, uint64_t, u64, get_u64, false)
INT(integer, integer, int64_t, i64, get_i64, false)
VP_OBLIGATION(ob_store_uinteger) {
  const uint64_t v = vp_u("value", 0, INT64_MAX);
  GO(integer, i64, v, t.get_i64(k) == int64_t(v), false);
}
INT(unsigned, unsigned, uint64_t, u64, get_u64, false)
INT(number_i32, number, int32_t, i32, get_i32, false)
INT(number_u32, number, uint32_t, u32, get_u32, false)
INT(number_i64, number, int64_t, i64, get_i64, false)
INT(number_u64, number, uint64_t, u64, get_u64, false)
VP_OBLIGATION(ob_store_sunsigned) {
  const int64_t v = vp_i("value", 0, INT64_MAX);
  GO(unsigned, u64, v, t.get_u64(k) == uint64_t(v), false);
}
VP_OBLIGATION(ob_store_bool) {
  const bool v = vp_enum("value", 0, 1) != 0;
  GO(bool, boolean, v, t.get_bool(k) == v, true);
}
VP_OBLIGATION(ob_store_int128) {
  const int64_t v = vp_i("value", INT64_MIN, INT64_MAX);
  GO(int128, i64, int128_t(v), t.get_i64(k) == v, false);
}
VP_OBLIGATION(ob_store_uint128) {
  const uint64_t v = vp_u("value", 0, UINT64_MAX);
  GO(uint128, u64, uint128_t(v), t.get_u64(k) == v, false);
}
#define REAL(OB, NAME, T, G, READ) VP_OBLIGATION(ob_store_##OB) { static const T vs[] = {T(0), T(1.5), T(-2.25), T(1e10)}; const T v = vs[vp_enum("value", 0, 3)]; GO(NAME, G, v, t.READ(k) == v, false); }
REAL(f32, f32, float, f32, get_f32)
REAL(f64, f64, double, f64, get_f64)
REAL(float, float, double, f64, get_f64)
REAL(number_f32, number, float, f32, get_f32)
REAL(number_f64, number, double, f64, get_f64)
VP_OBLIGATION(ob_store_decimal) {
  decimal64 v;
  v.i64 = vp_i("value", INT64_MIN, INT64_MAX);
  GO(decimal, d64, v, t.get_decimal(k).i64 == v.i64, false);
}
VP_OBLIGATION(ob_store_datetime) {
  const uint64_t v = vp_u("value", 0, UINT64_MAX);
  GO(datetime, t64, datetime_t::from_fixedpoint_32dot32(v), t.get_datetime(k).fixedpoint_32dot32() == v, false);
}
VP_OBLIGATION(ob_store_mac) {
  const uint64_t v = vp_u("value", 1, (uint64_t(1) << 48) - 1);
  GO(mac_address, mac, mac_address_t(v), t.get_mac_address(k).raw64 == v, false);
}
template <typename T> static bool bytes(const T &a, const uint8_t *b) {
  for (size_t i = 0; i < sizeof(T); ++i)
    if (!vp_same(reinterpret_cast<const uint8_t *>(&a)[i], b[i]))
      return false;
  return true;
}
#define BIN(NAME, T, G) VP_OBLIGATION(ob_store_##NAME) { alignas(16) uint8_t b[sizeof(T)]; vp_bytes(b, sizeof(T), "bytes"); GO(NAME, G, *reinterpret_cast<const T *>(b), bytes(t.get_##NAME(k), b), false); }
VP_BINS(BIN)
BIN(uuid, fptu::uuid_t, bin128)
VP_OBLIGATION(ob_store_string) {
  char b[7];
  vp_bytes(b, 7, "bytes");
  const size_t n = size_t(vp_enum("length", 1, 7));
  GO(string, text, string_view(b, n), t.get_string(k).size() == n && vp_same(uint8_t(t.get_string(k).data()[0]), uint8_t(b[0])) && vp_same(uint8_t(t.get_string(k).data()[n - 1]), uint8_t(b[n - 1])), false);
}
VP_OBLIGATION(ob_store_stdstring) {
  const char c = char(vp_u("c", 1, 127));
  const std::string s(3, c);
  GO(string, text, s, t.get_string(k).size() == 3 && t.get_string(k).data()[0] == c && t.get_string(k).data()[2] == c, false);
}
VP_OBLIGATION(ob_store_varbinary) {
  char b[7];
  vp_bytes(b, 7, "bytes");
  const size_t n = size_t(vp_enum("length", 1, 7));
  GO(varbinary, varbin, string_view(b, n), t.get_varbinary(k).size() == n && vp_same(uint8_t(t.get_varbinary(k).data()[0]), uint8_t(b[0])) && vp_same(uint8_t(t.get_varbinary(k).data()[n - 1]), uint8_t(b[n - 1])), false);
}
VP_OBLIGATION(ob_store_property) {
  char b[7];
  vp_bytes(b, 7, "bytes");
  const size_t n = size_t(vp_enum("length", 1, 7));
  const int8_t id = int8_t(vp_i("id", -128, 127));
  GO(property, property, property_pair(string_view(b, n), id), t.get_property(k).second == id && t.get_property(k).first.size() == n && vp_same(uint8_t(t.get_property(k).first.data()[n - 1]), uint8_t(b[n - 1])), false);
}
VP_OBLIGATION(ob_store_nested) {
  tuple_rw *in = vp_fresh(4, 256);
  const uint32_t v = uint32_t(vp_u("value", 0, UINT32_MAX));
  const token ik(u32, 1, false, true, false);
  in->set_u32(ik, v);
  const tuple_ro_weak w(in->take_asis());
  GO(nested, nested, w, t.get_nested_weak(k).get_u32(ik) == v, false);
}
/* erasing from a self-growing tuple: elements, ranges, whole collections, fixed-offset fields without room to remember the hole */
VP_OBLIGATION(ob_erase_element) {
  rwm t(4, 40, nullptr, tag());
  const token k(u64, 5, true, true, false);
  const unsigned n = 4;
  uint64_t v[n];
  t.set_u32(M1, 0x12345678u);
  for (unsigned i = 0; i < n; ++i)
    t.insert_u64(k, v[i] = vp_u("v", 0, UINT64_MAX));
  const unsigned a = unsigned(vp_enum("from", 0, n)), b = unsigned(vp_enum("to", 0, n));
  vp_assume(a <= b);
  const bool single = vp_enum("single", 0, 1) != 0, whole = vp_enum("whole", 0, 1) != 0;
  vp_assume(!(single && whole) && (!single || b == a + 1) && (!whole || (a == 0 && b == n)));
  auto c = t.collection(k);
  auto from = c.begin();
  /* the order of traversal */
  uint64_t seen[n];
  unsigned m = 0;
  for (auto it = c.begin(); it != c.end() && m < n; ++it)
    seen[m++] = (*it).get_u64();
  vp_assert(m == n, "all elements are there");
  for (unsigned i = 0; i < a; ++i)
    ++from;
  auto to = from;
  for (unsigned i = a; i < b; ++i)
    ++to;
  if (single)
    vp_assert(t.erase(from), "it was there");
  else if (whole)
    vp_assert(t.erase(c) == n, "all of them");
  else
    vp_assert(t.erase(from, to) == b - a, "so many were erased");
  m = 0;
  uint64_t left[n];
  if (b - a < n) {
    auto d = t.collection(k);
    for (auto it = d.begin(); it != d.end() && m < n; ++it)
      left[m++] = (*it).get_u64();
  }
  vp_assert(m == n - (b - a), "the others stay");
  for (unsigned i = 0, j = 0; i < n; ++i)
    if (i < a || i >= b)
      vp_assert(left[j++] == seen[i], "with their values, in order");
  vp_assert(t.get_u32(M1) == 0x12345678u && t.validate() == nullptr, "the rest is as it was");
}
VP_OBLIGATION(ob_erase_fixed_offset) {
  schema *s = schema::create().release();
  const token p = s->define_preplaced(std::string("p"), varbin, true, false, nullptr), q = s->define_preplaced(std::string("q"), text, true, false, nullptr);
  rwm t(1, 60, s, tag());
  t.set_varbinary(p, string_view("0123456789", 10));
  t.set_string(q, string_view("abc"));
  t.set_u32(M1, 0x12345678u);
  const unsigned n = fill(t, true, vp_enum("data", 0, 1) != 0);
  (void)n;
  const bool first = vp_enum("first", 0, 1) != 0;
  vp_assert(t.erase(first ? p : q) && !t.erase(first ? p : q), "it was there");
  vp_assert(t.is_present(p) == !first && t.is_present(q) == first && t.get_u32(M1) == 0x12345678u && t.validate() == nullptr, "the rest is as it was");
  if (first)
    vp_assert(t.get_string(q).size() == 3 && t.get_string(q).data()[2] == 'c', "the rest is as it was");
  else
    vp_assert(t.get_varbinary(p).size() == 10 && t.get_varbinary(p).data()[9] == '9', "the rest is as it was");
  t.set_string(q, string_view("again"));
  vp_assert(t.get_string(q).size() == 5 && t.validate() == nullptr, "it can be stored again");
}
