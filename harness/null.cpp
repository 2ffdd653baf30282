/* Absence, emptiness and erasure of single fields: the documented table
     fixed preplaced      discernible: NIL written => absent, absent read => error | not: everything as is, always present
     fixed loose          discernible: as is, absent read => error                 | not: 0 written => absent, absent reads 0
     variable, any place  discernible: as is, absent read => error                 | not: EMPTY written => absent, absent reads EMPTY */
#include "io.h"

struct scene : fixture {
  unsigned g;
  bool pre, disc, fixed, asis; /* asis: a preplaced fixed field that does not discern NULL is always present */
  const tuple_ro *nest;
};
static scene make() {
  scene s;
  s.g = vp_type();
  s.pre = vp_enum("place", 0, 1);
  s.disc = vp_enum("discernible", 0, 1);
  static_cast<fixture &>(s) = vp_make(s.pre, genus(s.g), s.disc, true, false, vp_enum("saturated", 0, 1) != 0);
  s.fixed = s.g > property;
  s.asis = s.pre && s.fixed && !s.disc;
  s.nest = s.g == nested ? vp_nest() : nullptr;
  return s;
}
/* state: 0 absent, 1 present with the empty value, 2 present with SOME */
template <typename T> static void expect1(const scene &s, const T *t, int state) {
  vp_assert(t->is_present(s.k) == (state != 0), "is_present tells whether the field has a value");
  int got = -1;
  OUTCOME(r, got = get(t, s.k, s.g, s.nest ? s.nest->size() : 0));
  if (state == 0 && s.disc)
    vp_assert(r == ABSENT, "reading an absent field that discerns NULL is an error");
  else {
    vp_assert(r == OK, "reading gives a value");
    vp_assert(got == (state == 2), "the value is the stored one, or the empty one for an absent field");
  }
  vp_neighbours(s, t);
}
static void expect(const scene &s, int state) {
  expect1(s, s.t, state);
  expect1(s, s.t->take_asis(), state);
}

VP_OBLIGATION(ob_null_fresh) {
  scene s = make();
  expect(s, s.asis ? 1 : 0);
}
VP_OBLIGATION(ob_null_write) {
  scene s = make();
  if (vp_enum("had", 0, 1))
    put(s.t, s.k, s.g, SOME, s.nest);
  put(s.t, s.k, s.g, SOME, s.nest);
  expect(s, 2);
}
VP_OBLIGATION(ob_null_write_empty) {
  scene s = make();
  /* f32, f64: the NIL is a NaN; signed integers: 0 is not the NIL; everything else: 0 is the NIL of a preplaced field */
  const bool zero_is_nil = s.pre && s.fixed && s.disc && !(s.g == i8 || s.g == i16 || s.g == i32 || s.g == i64 || s.g == f32 || s.g == f64 || s.g == d64);
  if (vp_enum("had", 0, 1))
    put(s.t, s.k, s.g, SOME, s.nest);
  put(s.t, s.k, s.g, EMPTY, s.nest);
  if (s.disc)
    expect(s, zero_is_nil ? 0 : 1);
  else
    expect(s, s.asis ? 1 : 0);
}
VP_OBLIGATION(ob_null_write_nil) {
  scene s = make();
  vp_assume(s.g == nested || s.fixed && s.pre && s.disc && s.g != f32 && s.g != f64); /* for a nested tuple NIL is the null pointer */
  if (vp_enum("had", 0, 1))
    put(s.t, s.k, s.g, SOME, s.nest);
  put(s.t, s.k, s.g, NIL, s.nest);
  expect(s, 0);
}
VP_OBLIGATION(ob_null_erase) {
  scene s = make();
  put(s.t, s.k, s.g, SOME, s.nest);
  vp_assert(s.t->erase(s.k), "erasing a present field says so");
  expect(s, s.asis ? 1 : 0);
  if (!s.asis)
    vp_assert(!s.t->erase(s.k), "erasing an absent field says so");
  expect(s, s.asis ? 1 : 0);
  put(s.t, s.k, s.g, SOME, s.nest);
  expect(s, 2);
}
VP_OBLIGATION(ob_null_erase_absent) {
  scene s = make();
  vp_assume(!s.asis);
  vp_assert(!s.t->erase(s.k), "erasing an absent field says so");
  expect(s, 0);
}
VP_OBLIGATION(ob_null_two) {
  /* another field of the same type and of the same id but another type are not touched */
  const unsigned g = vp_type();
  const bool d = vp_enum("discernible", 0, 1);
  tuple_rw *t = vp_fresh(8, 1024);
  const tuple_ro *nest = g == nested ? vp_nest() : nullptr;
  const size_t nsz = nest ? nest->size() : 0;
  const token a(genus(g), 5, false, d, false), b(genus(g), 6, false, d, false), c(g == u16 ? i16 : u16, 5, false, d, false);
  put(t, a, g, SOME, nest);
  put(t, b, g, SOME, nest);
  put(t, c, c.type(), SOME, nullptr);
  const unsigned which = unsigned(vp_enum("which", 0, 2));
  vp_assert(t->erase(which == 0 ? a : which == 1 ? b : c), "erasing a present field says so");
  vp_assert(t->is_present(a) == (which != 0) && t->is_present(b) == (which != 1) && t->is_present(c) == (which != 2), "exactly the erased field is gone");
  if (which != 0) vp_assert(get(t, a, g, nsz) == 1, "the other fields keep their values");
  if (which != 1) vp_assert(get(t, b, g, nsz) == 1, "the other fields keep their values");
  if (which != 2) vp_assert(get(t, c, c.type(), 0) == 1, "the other fields keep their values");
  const tuple_ro *ro = t->take_asis();
  vp_assert(ro->is_present(a) == (which != 0) && ro->is_present(b) == (which != 1) && ro->is_present(c) == (which != 2), "exactly the erased field is gone");
  if (which != 0) vp_assert(get(ro, a, g, nsz) == 1, "the other fields keep their values");
  if (which != 1) vp_assert(get(ro, b, g, nsz) == 1, "the other fields keep their values");
}
