/* tuples to work on: no schema, or a schema with one preplaced field between two neighbours */
#pragma once
#include "common.h"
using namespace fptu;
using namespace fptu::details;
static const char *const vp_names[] = {"a", "b", "c"};
struct fixture {
  schema *s;
  tuple_rw *t;
  token k;       /* the field */
  token lo, hi;  /* its neighbours (u32) */
};
static inline tuple_rw *vp_fresh(size_t items = 8, size_t bytes = 512) {
  void *space = vp_alloc(bytes, 0, "space");
  return tuple_rw::create_legacy(space, bytes, items);
}
/* place: 0 loose, 1 preplaced */
static inline fixture vp_make(int place, genus type, bool discernible, bool neighbours = true, bool collection = false, bool saturated = false) {
  fixture f;
  if (place == 0) {
    f.s = nullptr;
    f.t = vp_fresh();
    f.lo = token(u32, 6, false, true, false);
    f.k = token(type, 7, collection, discernible, saturated);
    f.hi = token(u32, 8, false, true, false);
  } else {
    f.s = schema::create().release();
    f.lo = f.s->define_preplaced(std::string("lo"), u32, false, false, nullptr);
    f.k = f.s->define_preplaced(std::string("field"), type, discernible, saturated, nullptr);
    f.hi = f.s->define_preplaced(std::string("hi"), u32, false, false, nullptr);
    f.t = tuple_rw::create_new(4, 300, f.s, hippeus::buffer_tag());
  }
  if (neighbours) {
    f.t->set_u32(f.lo, 0xA5A5A5A5u);
    f.t->set_u32(f.hi, 0x5A5A5A5Au);
  }
  return f;
}
template <typename T> static inline void vp_neighbours(const fixture &f, const T *t) {
  vp_assert(t->get_u32(f.lo) == 0xA5A5A5A5u && t->get_u32(f.hi) == 0x5A5A5A5Au, "the other fields keep their values");
}
