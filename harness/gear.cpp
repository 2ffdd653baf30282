/* Histories of storing, growing, shrinking and erasing variable-length fields: nothing is lost, nothing leaks, a refusal changes nothing.
   A model (which field is present, with which length and bytes) is kept beside the tuple. */
#include "io.h"

struct world {
  tuple_rw *t;
  unsigned n;          /* fields in use */
  token k[4];
  bool pre[4];
  bool has[4];
  unsigned len[4];     /* in units */
  const uint8_t *src[4];
  unsigned fixed;      /* units of the fixed part */
  unsigned gone;       /* refusals seen */
};
static unsigned room(const world &w, unsigned i) { return w.has[i] ? 1 + w.len[i] : 0; }

static void read1(const world &w, const string_view &v, unsigned i) {
  vp_assert(v.size() == w.len[i] * 4, "every field keeps its length");
  vp_assert(uint8_t(v.data()[0]) == w.src[i][0] && uint8_t(v.data()[1]) == w.src[i][1], "every field keeps its bytes");
  vp_assert(uint8_t(v.data()[w.len[i] * 4 - 1]) == w.src[i][w.len[i] * 4 - 1], "every field keeps its bytes");
}
template <typename T> static void check1(const world &w, const T *t) {
  for (unsigned i = 0; i < w.n; ++i) {
    vp_assert(t->is_present(w.k[i]) == w.has[i], "exactly the stored fields are present");
    if (w.has[i])
      read1(w, t->get_varbinary(w.k[i]), i);
  }
}
static void check(const world &w) {
  check1(w, w.t);
  size_t items = 0, units = w.fixed;
  for (unsigned i = 0; i < w.n; ++i) {
    items += w.has[i] && !w.pre[i];
    units += room(w, i);
  }
  vp_assert(w.t->loose_count() == items, "the number of loose fields is right");
  /* what is not used by a field is accounted as junk: nothing leaks */
  vp_assert(w.t->brutto_size() == (1 + items + units) * 4 + w.t->junk_bytes(), "the space taken is that of the fields plus the accounted junk");
  vp_assert(w.t->audit() == nullptr, "the tuple stays consistent");
}
static bool put(world &w, unsigned i, unsigned len) {
  uint8_t *b = static_cast<uint8_t *>(vp_alloc(32, 0, "bytes"));
  vp_bytes(b, 32, "b");
  OUTCOME(r, w.t->set_varbinary(w.k[i], string_view(reinterpret_cast<const char *>(b), len * 4)));
  vp_assert(r == OK || r == NOSPACE, "storing succeeds or fails for lack of space");
  if (r == OK) {
    w.has[i] = true;
    w.len[i] = len;
    w.src[i] = b;
  } else
    w.gone += 1;
  return r == OK;
}
static bool drop(world &w, unsigned i) {
  bool done = false;
  OUTCOME(r, done = w.t->erase(w.k[i]));
  vp_assert(r == OK || (r == NOSPACE && w.pre[i]), "erasing succeeds, except that a fixed-offset field may lack room for bookkeeping");
  if (r == OK) {
    vp_assert(done == w.has[i], "erasing tells whether there was something");
    w.has[i] = false;
  } else
    w.gone += 1;
  return r == OK;
}
static void step(world &w, const char *name, unsigned lens) {
  const unsigned o = unsigned(vp_enum(name, 0, w.n * lens - 1));
  const unsigned i = o / lens, a = o % lens;
  if (a == 0)
    drop(w, i);
  else
    put(w, i, a == 1 ? 1 : a == 2 ? 2 : a == 3 ? 5 : 3);
  check(w);
}
static void finish(world &w) {
  check1(w, w.t->take_asis());
  w.t->optimize(tuple_rw::optimize_flags(1 | (vp_enum("sort", 0, 1) ? 4 : 0)));
  vp_assert(w.t->junk_units() == 0, "compaction leaves no junk");
  check(w);
  check1(w, w.t->take_asis());
}
static world loose(unsigned n, unsigned items, unsigned bytes) {
  world w;
  w.n = n;
  w.fixed = 0;
  w.gone = 0;
  w.t = tuple_rw::create_new(items, bytes, nullptr, hippeus::buffer_tag());
  for (unsigned i = 0; i < n; ++i) {
    w.k[i] = token(varbin, i + 3, false, true, false);
    w.pre[i] = w.has[i] = false;
  }
  return w;
}
static world mixed(unsigned npre, unsigned n, unsigned items, unsigned bytes) {
  static const char *const names[] = {"p", "q", "r"};
  world w;
  w.n = n;
  w.gone = 0;
  schema *s = schema::create().release();
  for (unsigned i = 0; i < npre; ++i)
    w.k[i] = s->define_preplaced(std::string(names[i]), varbin, true, false, nullptr);
  w.fixed = npre;
  w.t = tuple_rw::create_new(items, bytes, s, hippeus::buffer_tag());
  for (unsigned i = 0; i < n; ++i) {
    w.pre[i] = i < npre;
    w.has[i] = false;
    if (i >= npre)
      w.k[i] = token(varbin, i + 3, false, true, false);
  }
  return w;
}
/* enough room for everything */
static void roomy(unsigned a, unsigned deep) {
  world w = loose(3, 8, 200);
  put(w, 0, 1);
  put(w, 1, 2);
  put(w, 2, 1);
  check(w);
  if (a % 4 == 0)
    drop(w, a / 4);
  else
    put(w, a / 4, a % 4 == 3 ? 5 : a % 4);
  check(w);
  step(w, "op2", 4);
  if (deep)
    step(w, "op3", 4);
  finish(w);
  vp_assert(w.gone == 0, "there is room enough");
}
#define X(A) VP_OBLIGATION(ob_roomy_##A) { roomy(A, 0); } VP_OBLIGATION(ob_deep_roomy_##A) { roomy(A, 1); }
X(0) X(1) X(2) X(3) X(4) X(5) X(6) X(7) X(8) X(9) X(10) X(11)
#undef X
/* four fields, two adjacent ones erased in any order, then one is stored again */
VP_OBLIGATION(ob_merge) {
  world w = loose(4, 8, 200);
  for (unsigned i = 0; i < 4; ++i)
    put(w, i, 1 + (i & 1));
  const unsigned a = vp_enum("a", 0, 3), b = vp_enum("b", 0, 3), c = vp_enum("c", 0, 3);
  vp_assume(a != b && a != c && b != c);
  drop(w, a);
  check(w);
  drop(w, b);
  check(w);
  if (vp_enum("third", 0, 1)) {
    drop(w, c);
    check(w);
  }
  put(w, a, unsigned(vp_enum("len", 1, 6)));
  finish(w);
}
VP_OBLIGATION(ob_all_erased) {
  world w = loose(4, 4, 100);
  const size_t head = w.t->head_space(), tail = w.t->tail_space_units();
  for (unsigned i = 0; i < 4; ++i)
    put(w, i, 1 + (i & 1));
  const unsigned a = vp_enum("a", 0, 3), b = vp_enum("b", 0, 3), c = vp_enum("c", 0, 3), d = 6 - a - b - c;
  vp_assume(a != b && a != c && b != c);
  drop(w, a);
  drop(w, b);
  drop(w, c);
  drop(w, d);
  check(w);
  vp_assert(w.t->head_space() == head && w.t->tail_space_units() == tail && w.t->junk_units() == 0, "erasing everything gives all the space back");
}
/* no room in the index for anything else */
static void tight_index(unsigned op1) {
  world w = loose(3, 3, 200);
  put(w, 0, 2);
  put(w, 1, 1);
  put(w, 2, 2);
  if (op1 < 3)
    drop(w, op1);
  else
    put(w, op1 - 3, 1);
  check(w);
  step(w, "op2", 4);
  finish(w);
}
VP_OBLIGATION(ob_tight_index_0) { tight_index(0); }
VP_OBLIGATION(ob_tight_index_1) { tight_index(1); }
VP_OBLIGATION(ob_tight_index_2) { tight_index(2); }
VP_OBLIGATION(ob_tight_index_3) { tight_index(3); }
VP_OBLIGATION(ob_tight_index_5) { tight_index(5); }
/* little room for data */
static void tight_data(unsigned spare, unsigned op1) {
  world w = loose(3, 8, (2 + 3 + 2) * 4 + spare * 4);
  vp_assert(put(w, 0, 1) && put(w, 1, 2) && put(w, 2, 1), "what fits is accepted");
  if (op1 < 3)
    drop(w, op1);
  else
    put(w, op1 - 3, 3);
  check(w);
  step(w, "op2", 4);
  finish(w);
}
#define X(A) VP_OBLIGATION(ob_tight_data_##A) { tight_data(0, A); } VP_OBLIGATION(ob_spare_data_##A) { tight_data(2, A); }
X(0) X(1) X(2) X(3) X(4) X(5)
#undef X
/* variable-length fixed-offset fields beside a loose one */
static void pre(unsigned items, unsigned bytes, unsigned op1) {
  world w = mixed(2, 3, items, bytes);
  if (op1 & 4) { /* in the other order */
    put(w, 2, 1);
    put(w, 1, 2);
    put(w, 0, 1);
  } else {
    put(w, 0, 1);
    put(w, 1, 2);
    put(w, 2, 1);
  }
  check(w);
  if ((op1 & 3) < 3)
    drop(w, op1 & 3);
  check(w);
  step(w, "op2", 4);
  finish(w);
}
#define X(A) VP_OBLIGATION(ob_pre_roomy_##A) { pre(8, 200, A); } VP_OBLIGATION(ob_pre_index_##A) { pre(1, 200, A); } VP_OBLIGATION(ob_pre_data_##A) { pre(4, 28, A); }
X(0) X(1) X(2) X(3) X(4) X(5) X(6) X(7)
#undef X
/* two more steps with the tightest index: swapping with holes */
static void swap(unsigned op1) {
  world w = mixed(3, 3, 1, 200);
  put(w, 0, 2);
  put(w, 1, 1);
  put(w, 2, 3);
  check(w);
  if (op1 < 3)
    drop(w, op1);
  else
    put(w, op1 - 3, 1);
  check(w);
  step(w, "op2", 5);
  step(w, "op3", 5);
  finish(w);
}
#define X(A) VP_OBLIGATION(ob_swap_##A) { swap(A); }
X(0) X(1) X(2) X(3) X(5)
#undef X
/* fields that are present but have no bytes, and fields that fit into the index, among holes */
VP_OBLIGATION(ob_bodiless) {
  world w = loose(3, 12, 200);
  const token e1(text, 1, false, true, false), e2(varbin, 9, false, true, false), e3(text, 2000, false, true, false), in(u16, 5, false, true, false), word(u32, 6, false, true, false), nil(nested, 7, true, true, false);
  const unsigned mask = unsigned(vp_enum("which", 0, 7));
  const unsigned when = unsigned(vp_enum("when", 0, 2));
  const uint16_t x = uint16_t(vp_u("x", 0, 65535));
  const uint32_t y = uint32_t(vp_u("y", 0, UINT32_MAX));
  size_t more = 0;
  for (unsigned i = 0; i < 3; ++i) {
    if (when == i) {
      if (mask & 1)
        w.t->set_string(e1, string_view("", size_t(0)));
      if (mask & 2)
        w.t->set_varbinary(e2, string_view("", size_t(0)));
      if (mask & 4) {
        w.t->set_string(e3, string_view("abcd", 4));
        w.t->set_string(e3, string_view("", size_t(0)));
      }
      if (mask == 5)
        w.t->insert_nested(nil, nullptr);
      w.t->set_u16(in, x);
      w.t->set_u32(word, y);
    }
    put(w, i, i + 1);
  }
  const unsigned gone = unsigned(vp_enum("erased", 0, 7));
  for (unsigned i = 0; i < 3; ++i)
    if (gone >> i & 1)
      drop(w, i);
  for (unsigned round = 0; round < 2; ++round) {
    check1(w, w.t);
    vp_assert(w.t->is_present(e1) == !!(mask & 1) && w.t->is_present(e2) == !!(mask & 2) && w.t->is_present(e3) == !!(mask & 4), "exactly the stored fields are present");
    vp_assert(!(mask & 1) || w.t->get_string(e1).empty(), "an empty text stays empty");
    vp_assert(!(mask & 2) || w.t->get_varbinary(e2).empty(), "an empty binary stays empty");
    vp_assert(!(mask & 4) || w.t->get_string(e3).empty(), "an emptied text stays empty");
    vp_assert(w.t->get_u16(in) == x && w.t->get_u32(word) == y, "every other field keeps its value");
    if (mask == 5) {
      unsigned n = 0;
      const auto c = w.t->collection(nil);
      for (auto it = c.begin(); it != c.end(); ++it)
        ++n;
      vp_assert(n == 1, "an element without a body stays so");
    }
    vp_assert(w.t->audit() == nullptr, "the tuple stays consistent");
    if (round == 0) {
      w.t->optimize(tuple_rw::optimize_flags(1 | (vp_enum("sort", 0, 1) ? 4 : 0)));
      vp_assert(w.t->junk_units() == 0, "compaction leaves no junk");
    }
  }
  const tuple_ro *ro = w.t->take_asis();
  check1(w, ro);
  vp_assert(tuple_ro::audit(ro, ro->size(), nullptr, true) == nullptr, "the finished tuple is well-formed and without holes");
  vp_assert(ro->get_u16(in) == x && ro->get_u32(word) == y, "every other field keeps its value");
}
/* many fields: the index is sorted, looked up and compacted beyond the small sizes */
static void crowd(unsigned n) {
  tuple_rw *t = tuple_rw::create_new(n, n * 12, nullptr, hippeus::buffer_tag());
  const unsigned step = unsigned(vp_enum("order", 0, 3));
  static const unsigned mul[] = {1, 7, 11, 37};
  uint32_t v[48];
  for (unsigned i = 0; i < n; ++i) {
    const unsigned j = i * mul[step] % n;
    v[j] = uint32_t(vp_u("v", 0, UINT32_MAX));
    t->set_u32(token(u32, 100 + j, false, true, false), v[j]);
  }
  const unsigned odd = unsigned(vp_enum("erase", 0, 3)); /* none, even, odd, every third */
  bool has[48];
  for (unsigned i = 0; i < n; ++i) {
    has[i] = !(odd == 1 ? i % 2 == 0 : odd == 2 ? i % 2 == 1 : odd == 3 ? i % 3 == 0 : false);
    if (!has[i])
      vp_assert(t->erase(token(u32, 100 + i, false, true, false)), "erasing works");
  }
  vp_assert(t->audit() == nullptr, "the tuple stays consistent");
  const unsigned how = unsigned(vp_enum("optimize", 0, 2));
  if (how)
    t->optimize(tuple_rw::optimize_flags(how == 1 ? 1 : 5));
  size_t left = 0;
  for (unsigned i = 0; i < n; ++i) {
    const token k(u32, 100 + i, false, true, false);
    vp_assert(t->is_present(k) == has[i], "exactly the stored fields are present");
    if (has[i])
      vp_assert(vp_same(t->get_u32(k), v[i]), "every field keeps its value");
    left += has[i];
  }
  vp_assert(t->loose_count() == left, "the number of loose fields is right");
  vp_assert(t->brutto_size() == (1 + 2 * left) * 4 + t->junk_bytes(), "the space taken is that of the fields plus the accounted junk");
  vp_assert(t->audit() == nullptr && (!how || t->junk_units() == 0), "the tuple stays consistent");
  const tuple_ro *ro = t->take_asis();
  vp_assert(tuple_ro::audit(ro, ro->size(), nullptr, how != 0) == nullptr, "the finished tuple is well-formed");
  for (unsigned i = 0; i < n; ++i)
    if (has[i])
      vp_assert(vp_same(ro->get_u32(token(u32, 100 + i, false, true, false)), v[i]), "every field keeps its value");
}
VP_OBLIGATION(ob_crowd_5) { crowd(5); }
VP_OBLIGATION(ob_crowd_17) { crowd(17); }
VP_OBLIGATION(ob_crowd_40) { crowd(40); }
