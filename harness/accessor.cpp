/* Access to a field by tuple[identifier]: reading, storing, storing again through the same reference; presence and type. */
#include "io.h"
/* looks like a tuple with one field */
template <typename A> struct one {
  A a;
#define N(NAME) auto get_##NAME(const token &) const -> decltype(a.get_##NAME()) { return a.get_##NAME(); } template <typename V> void set_##NAME(const token &, const V &v) { a.set_##NAME(v); }
  N(string) N(varbinary) N(nested) N(property) N(i8) N(u8) N(i16) N(u16) N(i32) N(u32) N(i64) N(u64) N(f32) N(f64) N(decimal) N(datetime) N(mac_address)
#define X(NAME, T, G) N(NAME)
  VP_BINS(X)
#undef X
#undef N
};
template <typename A> static one<A> ref(const A &a) { return one<A>{a}; }
template <typename A> static void kind(const A &a, const token &k, genus g) {
  vp_assert(a.type() == g && a.token() == k && a.is_loose() == k.is_loose() && a.is_preplaced() == k.is_preplaced(), "the reference tells the field's type and place");
  vp_assert(a.is_discernible_null() == k.is_discernible_null() && !a.is_collection(), "the reference tells the field's kind");
  vp_assert(a.is_stretchy() == (g == text || g == varbin || g == nested || g == property), "the reference tells the field's kind");
  vp_assert(a.is_float() == (g == f32 || g == f64 || g == d64), "the reference tells the field's kind");
  vp_assert(a.is_signed() == (g == i8 || g == i16 || g == i32 || g == i64 || g == f32 || g == f64 || g == d64), "the reference tells the field's kind");
  vp_assert(a.is_unsigned() == (g == u8 || g == u16 || g == u32 || g == u64), "the reference tells the field's kind");
}
template <typename T> static void shown(T *t, const token &k, unsigned g, size_t nest_size, int want, const fixture &f) {
  const auto a = (*t)[k];
  kind(a, k, genus(g));
  vp_assert(a.exist() == t->is_present(k) && bool(a) == a.exist(), "a reference knows whether the field is there");
  if (want)
    vp_assert(a.exist(), "a stored field is there");
  if (a.exist() || k.is_loose()) {
    const auto r = ref(a);
    int v = -1;
    OUTCOME(o, v = get(&r, k, g, nest_size));
    int w = -1;
    OUTCOME(p, w = get(t, k, g, nest_size));
    vp_assert(o == p && v == w, "reading by reference is reading");
    if (want)
      vp_assert(o == OK && v == want, "the value reads back");
  }
  vp_neighbours(f, t);
}
static void access(int place) {
  const unsigned g = vp_type();
  const bool d = vp_enum("discernible", 0, 1) != 0;
  const tuple_ro *nest = vp_nest();
  const size_t size = nest->size();
  const fixture f = vp_make(place, genus(g), d);
  shown<tuple_rw>(f.t, f.k, g, size, 0, f);
  const bool before = vp_enum("stored before", 0, 1) != 0;
  if (before)
    put(f.t, f.k, g, EMPTY, nest);
  shown<tuple_rw>(f.t, f.k, g, size, 0, f);
  auto r = ref((*f.t)[f.k]);
  put(&r, f.k, g, SOME, nest);
  vp_assert(r.a.exist() && get(&r, f.k, g, size) == 1, "the value reads back by the same reference");
  shown<tuple_rw>(f.t, f.k, g, size, 1, f);
  const size_t count = f.t->loose_count();
  OUTCOME(e, put(&r, f.k, g, EMPTY, nest));
  vp_assert(e == OK, "an empty value can be stored");
  shown<tuple_rw>(f.t, f.k, g, size, 0, f);
  auto q = ref((*f.t)[f.k]);
  put(&q, f.k, g, SOME, nest);
  shown<tuple_rw>(f.t, f.k, g, size, 1, f);
  vp_assert(f.t->loose_count() == count, "the field is stored once");
  vp_assert(f.t->audit() == nullptr, "the tuple is valid");
  const tuple_ro *ro = f.t->take_asis();
  shown<const tuple_ro>(ro, f.k, g, size, 1, f);
}
VP_OBLIGATION(ob_access_loose) { access(0); }
VP_OBLIGATION(ob_access_preplaced) { access(1); }
/* a value of another type is refused by the reference too */
VP_OBLIGATION(ob_access_type) {
  static const unsigned others[] = {text, varbin, u8, i16, u32, i64, f64, t64, bin128};
  const unsigned g = vp_type(), h = others[vp_enum("value type", 0, 8)];
  const fixture f = vp_make(int(vp_enum("place", 0, 1)), genus(g), true);
  const tuple_ro *nest = vp_nest();
  const bool before = vp_enum("stored before", 0, 1) != 0;
  if (before)
    put(f.t, f.k, g, SOME, nest);
  auto r = ref((*f.t)[f.k]);
  OUTCOME(o, put(&r, f.k, h, SOME, nest));
  const tuple_rw *t = f.t;
  OUTCOME(p, put(f.t, f.k, h, SOME, nest));
  vp_assert(o == p, "storing by reference is storing");
  if (o != OK) {
    vp_assert(t->is_present(f.k) == before, "a refused value changes nothing");
    if (before)
      vp_assert(get(t, f.k, g, nest->size()) == 1, "a refused value changes nothing");
  }
  vp_neighbours(f, t);
}
/* a reference to what is not there */
VP_OBLIGATION(ob_access_absent) {
  const unsigned g = vp_type();
  const bool d = vp_enum("discernible", 0, 1) != 0;
  const fixture f = vp_make(0, genus(g), d);
  const tuple_ro *nest = vp_nest();
  put(f.t, token(genus(g), 9, false, true, false), g, SOME, nest);
  const tuple_ro *ro = f.t->take_asis();
  vp_assert(!(*ro)[f.k].exist() && !(*f.t)[f.k].exist(), "an absent field is not there");
  const auto a = ref((*ro)[f.k]);
  int v = -1;
  OUTCOME(o, v = get(&a, f.k, g, nest->size()));
  vp_assert(d ? o == ABSENT : o == OK && v == 0, "an absent field reads as absent");
}
