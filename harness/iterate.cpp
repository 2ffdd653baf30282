/* Collections and iteration: every element exactly once, whatever was put, erased, compacted or sorted around it. */
#include "io.h"

/* element values are bits of a mask, so a set of elements is a sum */
static void insert(tuple_rw *t, const token &k, unsigned g, unsigned v) {
  switch (g) {
  case u16: t->insert_u16(k, uint16_t(v)); return;
  case u32: t->insert_u32(k, v); return;
  case u64: t->insert_u64(k, v); return;
  case text: {
    char buf[6];
    for (unsigned i = 0; i < 6; ++i)
      buf[i] = char('a' + v);
    t->insert_string(k, string_view(buf, 1 + v % 6));
    return;
  }
  default: __builtin_unreachable();
  }
}
template <typename A> static unsigned value(const A &a, unsigned g) {
  switch (g) {
  case u16: return a.get_u16();
  case u32: return a.get_u32();
  case u64: return unsigned(a.get_u64());
  case text: {
    const string_view s = a.get_string();
    const unsigned v = unsigned(s.data()[0] - 'a');
    return s.size() == 1 + v % 6 ? v : 1000;
  }
  default: __builtin_unreachable();
  }
}
static unsigned element_type() {
  static const unsigned types[] = {u16, u32, u64, text};
  return types[vp_enum("type", 0, 3)];
}
/* one bit per element seen, 1<<16 when one is seen twice */
static unsigned mark(unsigned seen, unsigned v) { return v < 12 && !(seen >> v & 1) ? seen | 1u << v : seen | 1u << 16; }
template <typename T> static unsigned seen_ro(T *t, const token &k, unsigned g, bool postfix = false) {
  unsigned seen = 0;
  const auto c = t->collection(k);
  if (postfix)
    for (auto it = c.begin(); it != c.end(); it++)
      seen = mark(seen, value(*it, g));
  else
    for (auto it = c.begin(); it != c.end(); ++it)
      seen = mark(seen, value(*it, g));
  vp_assert(c.empty() == (seen == 0), "a collection is empty exactly when it has no elements");
  return seen;
}
static unsigned seen_rw(tuple_rw *t, const token &k, unsigned g, bool postfix = false) {
  unsigned seen = 0;
  auto c = t->collection(k);
  if (postfix)
    for (auto it = c.begin(); it != c.end(); it++)
      seen = mark(seen, value(*it, g));
  else
    for (auto it = c.begin(); it != c.end(); ++it)
      seen = mark(seen, value(*it, g));
  return seen;
}
struct deck {
  tuple_rw *t;
  token k, other, single;
  unsigned g, n;
};
/* n elements with other fields in between: another collection of the same id, a single field */
static deck shuffle(unsigned max) {
  deck d;
  d.g = element_type();
  d.n = unsigned(vp_enum("elements", 0, max));
  d.t = vp_fresh(16, 512);
  d.k = token(genus(d.g), 7, true, true, false);
  d.other = token(i8, 7, true, true, false);
  d.single = token(genus(d.g == u32 ? u64 : u32), 7, false, true, false);
  const unsigned gap = unsigned(vp_enum("others after", 0, max));
  for (unsigned i = 0; i <= max; ++i) {
    if (i == gap) {
      if (d.g == u32) d.t->set_u64(d.single, 77);
      else d.t->set_u32(d.single, 77);
      d.t->insert_i8(d.other, 5);
      d.t->insert_i8(d.other, 5);
    }
    if (i < d.n)
      insert(d.t, d.k, d.g, i);
  }
  return d;
}
static unsigned others(const deck &d) {
  unsigned n = 0;
  const auto c = d.t->collection(d.other);
  for (auto it = c.begin(); it != c.end(); ++it)
    n += (*it).get_i8() == 5;
  return n;
}
static void rest(const deck &d) {
  vp_assert(others(d) == 2, "another collection keeps its elements");
  vp_assert((d.g == u32 ? d.t->get_u64(d.single) : d.t->get_u32(d.single)) == 77, "the other fields keep their values");
}
static void exactly(const deck &d, unsigned set) {
  vp_assert(seen_rw(d.t, d.k, d.g) == set, "the collection has exactly its elements");
  vp_assert(seen_ro(d.t, d.k, d.g) == set, "the collection has exactly its elements when only read");
  vp_assert(d.t->is_present(d.k) == (set != 0), "a collection is present exactly when it has elements");
}

VP_OBLIGATION(ob_collect) {
  deck d = shuffle(4);
  const unsigned all = (1u << d.n) - 1;
  exactly(d, all);
  rest(d);
  vp_assert(seen_rw(d.t, d.k, d.g, true) == all, "postfix steps visit every element");
  vp_assert(seen_ro(d.t, d.k, d.g, true) == all, "postfix steps visit every element");
  const tuple_ro *ro = d.t->take_asis();
  vp_assert(seen_ro(ro, d.k, d.g) == all, "the finished tuple has exactly the elements");
  vp_assert(seen_ro(ro, d.k, d.g, true) == all, "postfix steps visit every element of the finished tuple");
}
VP_OBLIGATION(ob_collect_sorted) {
  deck d = shuffle(3);
  const unsigned all = (1u << d.n) - 1;
  d.t->optimize(tuple_rw::optimize_flags::enforce_sort_index);
  exactly(d, all);
  rest(d);
  const tuple_ro *ro = d.t->take_asis();
  vp_assert(seen_ro(ro, d.k, d.g) == all, "the finished sorted tuple has exactly the elements");
}
static void remove_at(deck &d, unsigned &set, unsigned at) {
  auto c = d.t->collection(d.k);
  auto it = c.begin();
  for (unsigned i = 0; i < at && it != c.end(); ++i)
    ++it;
  if (it != c.end()) {
    const unsigned v = value(*it, d.g);
    vp_assert(d.t->erase(it), "erasing an element succeeds");
    set &= ~(1u << v);
  } else
    vp_assert(!d.t->erase(it), "there is nothing to erase at the end");
}
static inline __attribute__((always_inline)) void erase_elements(unsigned upto) {
  deck d = shuffle(upto);
  unsigned set = (1u << d.n) - 1;
  remove_at(d, set, unsigned(vp_enum("first", 0, long(upto) - 1)));
  exactly(d, set);
  remove_at(d, set, unsigned(vp_enum("second", 0, long(upto) - 2)));
  exactly(d, set);
  rest(d);
  insert(d.t, d.k, d.g, 9);
  exactly(d, set | 1u << 9);
  d.t->optimize(tuple_rw::optimize_flags::compactify);
  exactly(d, set | 1u << 9);
  rest(d);
  const tuple_ro *ro = d.t->take_asis();
  vp_assert(seen_ro(ro, d.k, d.g) == (set | 1u << 9), "the finished tuple has exactly the elements left");
}
VP_OBLIGATION(ob_erase_elements) { erase_elements(3); }
VP_OBLIGATION(ob_deep_erase_elements) { erase_elements(4); }
VP_OBLIGATION(ob_erase_range) {
  deck d = shuffle(4);
  unsigned set = (1u << d.n) - 1;
  auto c = d.t->collection(d.k);
  auto from = c.begin(), to = c.begin();
  const unsigned a = unsigned(vp_enum("from", 0, 4)), b = unsigned(vp_enum("to", 0, 4));
  vp_assume(a <= b);
  vp_assume(b <= d.n);
  for (unsigned i = 0; i < a; ++i)
    ++from;
  for (unsigned i = 0; i < b; ++i)
    ++to;
  for (auto it = from; it != to; ++it)
    set &= ~(1u << value(*it, d.g));
  vp_assert(d.t->erase(from, to) == b - a, "the number of erased elements");
  exactly(d, set);
  rest(d);
}
VP_OBLIGATION(ob_erase_range_many) {
  const token k(u16, 5, true, true, false), o(u32, 5, true, true, false);
  tuple_rw *const t = tuple_rw::create_new(20, 300, nullptr, hippeus::buffer_tag());
  t->insert_u32(o, 77);
  for (unsigned i = 0; i < 9; ++i)
    t->insert_u16(k, uint16_t(i));
  t->insert_u32(o, 78);
  auto c = t->collection(k);
  auto from = c.begin(), to = c.begin();
  const unsigned a = unsigned(vp_enum("from", 0, 9)), b = unsigned(vp_enum("to", 0, 9));
  vp_assume(a <= b);
  for (unsigned i = 0; i < a; ++i)
    ++from;
  for (unsigned i = 0; i < b; ++i)
    ++to;
  unsigned set = (1u << 9) - 1;
  for (auto it = from; it != to; ++it)
    set &= ~(1u << (*it).get_u16());
  vp_assert(t->erase(from, to) == b - a, "the number of erased elements");
  vp_assert(seen_rw(t, k, u16) == set && seen_ro(t->take_asis(), k, u16) == set, "exactly the elements left are visited");
  unsigned n = 0;
  for (const auto &e : t->collection(o)) {
    vp_assert(e.get_u32() == 77 || e.get_u32() == 78, "the other fields stay as they were");
    ++n;
  }
  vp_assert(n == 2, "the other fields stay as they were");
  vp_assert(t->erase(t->collection(k)) == 9 - (b - a), "the number of erased elements");
}
VP_OBLIGATION(ob_erase_all) {
  deck d = shuffle(4);
  if (vp_enum("as a field", 0, 1))
    vp_assert(d.t->erase(d.k) == (d.n > 0), "erasing a collection reports whether there was something");
  else
    vp_assert(d.t->erase(d.t->collection(d.k)) == d.n, "the number of erased elements");
  exactly(d, 0);
  rest(d);
  vp_assert(!d.t->erase(d.k), "an empty collection has nothing to erase");
  insert(d.t, d.k, d.g, 3);
  exactly(d, 1u << 3);
  rest(d);
}
VP_OBLIGATION(ob_rewrite_elements) {
  /* changing an element through an iterator leaves the others */
  deck d = shuffle(3);
  const unsigned at = unsigned(vp_enum("which", 0, 2));
  vp_assume(at < d.n);
  unsigned set = (1u << d.n) - 1;
  auto c = d.t->collection(d.k);
  auto it = c.begin();
  for (unsigned i = 0; i < at; ++i)
    ++it;
  set &= ~(1u << value(*it, d.g));
  switch (d.g) {
  case u16: (*it).set_u16(11); break;
  case u32: (*it).set_u32(11); break;
  case u64: (*it).set_u64(11); break;
  default: (*it).set_string(string_view("llllll", 6)); break;
  }
  exactly(d, set | 1u << 11);
  rest(d);
}
/* elements without content */
VP_OBLIGATION(ob_null_elements) {
  tuple_rw *t = vp_fresh(16, 512);
  const token k(nested, 7, true, true, false), s(u64, 3, false, true, false), z(varbin, 4, false, true, false);
  const tuple_ro *const nest = vp_nest_empty();
  const unsigned n = unsigned(vp_enum("elements", 1, 3));
  const unsigned mask = unsigned(vp_enum("which are null", 0, 7));
  t->set_varbinary(z, string_view("abcdefgh", 8));
  unsigned nulls = 0;
  for (unsigned i = 0; i < n; ++i) {
    const bool null = mask >> i & 1;
    nulls += null;
    t->insert_nested(k, null ? nullptr : nest);
  }
  t->set_u64(s, 0x0123456789ABCDEFu);
  const bool squeeze = vp_enum("erase and compact", 0, 1);
  if (squeeze) {
    t->erase(z);
    t->optimize(tuple_rw::optimize_flags::compactify);
    vp_assert(t->junk_units() == 0, "compaction leaves no junk");
  }
  if (vp_enum("sort", 0, 1))
    t->optimize(tuple_rw::optimize_flags::enforce_sort_index);
  unsigned seen = 0, empty = 0;
  const auto c = t->collection(k);
  for (auto it = c.begin(); it != c.end(); ++it) {
    const tuple_ro *e = nullptr;
    OUTCOME(o, e = (*it).get_nested());
    ++seen;
    empty += o == ABSENT;
    vp_assert(o == ABSENT || (o == OK && e && e->size() == 4), "a nested element is what was stored");
  }
  vp_assert(seen == n && empty == nulls, "every element, with content or without, is there once");
  vp_assert(t->get_u64(s) == 0x0123456789ABCDEFu, "the other fields keep their values");
  vp_assert(t->is_present(z) == !squeeze, "exactly the stored fields are present");
  vp_assert(t->audit() == nullptr, "the tuple is valid");
}
/* single fields and collections do not stand for one another */
VP_OBLIGATION(ob_collection_errors) {
  const unsigned g = element_type();
  tuple_rw *t = vp_fresh(8, 512);
  const token one(genus(g), 7, false, true, false), many(genus(g), 7, true, true, false);
  OUTCOME(a, insert(t, one, g, 1));
  vp_assert(a == COLLREQ, "a single field takes no further elements");
  OUTCOME(b, g == u16 ? t->set_u16(many, 1) : g == u32 ? t->set_u32(many, 1) : g == u64 ? t->set_u64(many, 1) : t->set_string(many, string_view("a", 1)));
  vp_assert(b == COLLUNA, "a collection is not a single field");
  vp_assert(t->brutto_size() == vp_fresh(8, 512)->brutto_size(), "a refused operation changes nothing");
  insert(t, many, g, 1);
  OUTCOME(c, value((*t)[many], g));
  vp_assert(c == COLLUNA, "a collection is not read as a single field");
  OUTCOME(d, t->collection(one));
  vp_assert(d == COLLREQ, "a single field is not iterated");
  const tuple_ro *ro = t->take_asis();
  OUTCOME(e, ro->collection(one));
  vp_assert(e == COLLREQ, "a single field is not iterated");
}

/* ---- iteration over all fields ---- */
struct row {
  schema *s;
  tuple_rw *t;
  token p[4];   /* u32, text (discernible), u16 (discernible), text */
  token l[3];   /* loose u32, u64, varbin */
  token want[7];
  unsigned n, np;
};
static row lay(unsigned which_pre, unsigned loose) {
  row r;
  r.s = schema::create().release();
  r.p[0] = r.s->define_preplaced(std::string("p0"), (which_pre & 16) ? text : u32, (which_pre & 16) != 0, false, nullptr);
  r.p[1] = r.s->define_preplaced(std::string("p1"), text, true, false, nullptr);
  r.p[2] = r.s->define_preplaced(std::string("p2"), u16, true, false, nullptr);
  r.p[3] = r.s->define_preplaced(std::string("p3"), text, true, false, nullptr);
  r.l[0] = r.s->define_loose(std::string("l0"), u32, false, true, false);
  r.l[1] = r.s->define_loose(std::string("l1"), u64, false, true, false);
  r.l[2] = r.s->define_loose(std::string("l2"), varbin, false, true, false);
  r.t = tuple_rw::create_new(6, 300, r.s, hippeus::buffer_tag());
  r.n = 0;
  if (which_pre & 16) {
    if (which_pre & 1) r.t->set_string(r.p[0], string_view("zero", 4)), r.want[r.n++] = r.p[0];
  } else
    r.t->set_u32(r.p[0], 1), r.want[r.n++] = r.p[0];
  if (which_pre & 2) r.t->set_string(r.p[1], string_view("one", 3)), r.want[r.n++] = r.p[1];
  if (which_pre & 4) r.t->set_u16(r.p[2], 2), r.want[r.n++] = r.p[2];
  if (which_pre & 8) r.t->set_string(r.p[3], string_view("three", 5)), r.want[r.n++] = r.p[3];
  r.np = r.n;
  for (unsigned i = 0; i < loose; ++i) {
    if (i == 0) r.t->set_u32(r.l[0], 3);
    if (i == 1) r.t->set_u64(r.l[1], 4);
    if (i == 2) r.t->set_varbinary(r.l[2], string_view("five", 4));
    r.want[r.n++] = r.l[i];
  }
  return r;
}
template <typename T> static void walk(const row &r, const T *t) {
  unsigned i = 0;
  auto it = t->cbegin(r.s);
  const auto end = t->cend(r.s);
  for (; it != end; ++it, ++i) {
    vp_assert(i < r.n, "iteration ends after the last field");
    vp_assert(it == r.want[i], "fields come in the documented order, absent ones are skipped");
    vp_assert(it.field_type() == r.want[i].type(), "the iterator tells the type of the field");
    vp_assert(it.field_token() == r.want[i], "the iterator tells the field");
    for (unsigned j = 0; j < r.n; ++j)
      vp_assert((it == r.want[j]) == (i == j), "the iterator stands on one field");
    vp_assert(it < end && !(end < it) && it <= it && !(it > end), "the order of iterators is that of the fields");
  }
  vp_assert(i == r.n, "iteration visits every field");
  while (i > 0) {
    const auto was = it;
    --it;
    --i;
    vp_assert(it == r.want[i], "iteration backwards visits the same fields");
    vp_assert(it < was && was > it, "the order of iterators is that of the fields");
  }
  vp_assert(it == t->cbegin(r.s), "iteration backwards ends at the beginning");
  if (r.n > 1) {
    auto p = it++;
    vp_assert(p == r.want[0] && it == r.want[1], "postfix step forward");
    p = it--;
    vp_assert(p == r.want[1] && it == r.want[0], "postfix step backward");
  }
}
VP_OBLIGATION(ob_fields) {
  const unsigned pre = unsigned(vp_enum("present", 0, 31)) | 0;
  vp_assume((pre & 17) != 1);
  row r = lay(pre, unsigned(vp_enum("loose", 0, 3)));
  /* going backwards stops at the first defined field even if absent, so only start from present ones */
  vp_assume(!((pre & 16) && !(pre & 1)));
  walk(r, r.t);
  walk(r, r.t->take_asis());
}
VP_OBLIGATION(ob_fields_first_absent) {
  row r = lay(16 | unsigned(vp_enum("present", 0, 7)) * 2, unsigned(vp_enum("loose", 0, 2)));
  unsigned i = 0;
  const tuple_ro *ro = r.t->take_asis();
  for (auto it = ro->cbegin(r.s); it != ro->cend(r.s); ++it, ++i)
    vp_assert(i < r.n && it == r.want[i], "absent leading fields are skipped");
  vp_assert(i == r.n, "iteration visits every field");
}
VP_OBLIGATION(ob_fields_values) {
  row r = lay(14, 3);
  const tuple_ro *ro = r.t->take_asis();
  auto it = ro->cbegin(r.s);
  vp_assert((*it).get_u32() == 1, "the value at the iterator");
  ++it;
  vp_assert((*it).get_string().size() == 3, "the value at the iterator");
  ++it;
  vp_assert((*it).get_u16() == 2, "the value at the iterator");
  ++it;
  vp_assert((*it).get_string().size() == 5, "the value at the iterator");
  ++it;
  vp_assert((*it).get_u32() == 3, "the value at the iterator");
  ++it;
  vp_assert((*it).get_u64() == 4, "the value at the iterator");
  ++it;
  vp_assert((*it).get_varbinary().size() == 4, "the value at the iterator");
  ++it;
  vp_assert(it == ro->cend(r.s), "iteration visits every field");
}
/* narrow fields, several in a unit, the first one at any offset */
VP_OBLIGATION(ob_fields_narrow) {
  const unsigned first = unsigned(vp_enum("first", 0, 2)) * 4, present = unsigned(vp_enum("present", 0, 15));
  row r;
  r.s = schema::create().release();
  for (unsigned i = 0; i < 4; ++i) {
    static const char *const names[] = {"a", "b", "c", "d"};
    r.p[i] = r.s->import_definition(std::string(names[i]), token(first + (i < 3 ? i : 4), i == 2 ? i16 : u8, true, false), nullptr, false);
  }
  r.t = tuple_rw::create_new(6, 300, r.s, hippeus::buffer_tag());
  r.n = 0;
  for (unsigned i = 0; i < 4; ++i) {
    if (!(present >> i & 1)) {
      r.t->erase(r.p[i]);
      continue;
    }
    if (i == 2) r.t->set_i16(r.p[i], -7); else r.t->set_u8(r.p[i], uint8_t(i + 1));
    r.want[r.n++] = r.p[i];
  }
  r.np = r.n;
  /* same type, different ids; same id, different types */
  r.l[0] = r.s->define_loose(std::string("l0"), u32, false, true, false);
  r.l[1] = r.s->define_loose(std::string("l1"), u32, false, true, false);
  r.l[2] = r.s->define_loose(std::string("l2"), u8, false, true, false);
  const unsigned loose = unsigned(vp_enum("loose", 0, 1)) * 3;
  for (unsigned i = 0; i < loose; ++i) {
    if (i == 2) r.t->set_u8(r.l[i], 5); else r.t->set_u32(r.l[i], i);
    r.want[r.n++] = r.l[i];
  }
  const tuple_ro *const ro = r.t->take_asis();
  if (first == 0 && (present & 1)) {
    walk(r, r.t);
    walk(r, ro);
  } else {
    unsigned i = 0;
    for (auto it = ro->cbegin(r.s); it != ro->cend(r.s); ++it, ++i)
      vp_assert(i < r.n && it == r.want[i], "absent leading fields are skipped");
    vp_assert(i == r.n, "iteration visits every field");
    auto it = ro->cend(r.s);
    while (i > 0) {
      --it;
      --i;
      vp_assert(it == r.want[i], "iteration backwards visits the same fields");
    }
  }
}
/* loose fields: random access */
template <typename T> static void random_access(const row &r, const T *t) {
  const auto b = t->cbegin_loose(), e = t->cend_loose();
  const int n = int(r.n - r.np);
  vp_assert(e - b == n && b + n == e && n + b == e && e - n == b, "distance between the ends");
  const int i = int(vp_enum("i", 0, 3)), j = int(vp_enum("j", 0, 3));
  vp_assume(i <= n);
  vp_assume(j <= n);
  const auto x = b + i, y = b + j;
  vp_assert(y - x == j - i, "distance");
  vp_assert((x < y) == (i < j) && (x <= y) == (i <= j) && (x > y) == (i > j) && (x >= y) == (i >= j) && (x == y) == (i == j) && (x != y) == (i != j), "order");
  vp_assert(x + (j - i) == y && y - (j - i) == x, "shifts");
  auto z = x;
  z += j - i;
  vp_assert(z == y, "shift in place");
  z -= j - i;
  vp_assert(z == x, "shift back in place");
  if (i < n) {
    vp_assert(x == r.want[r.np + i] && x.field_type() == r.want[r.np + i].type() && x.field_id() == r.want[r.np + i].id(), "fields come in the order of adding");
    vp_assert(x.field_token(r.s) == r.want[r.np + i], "the iterator tells the field");
    for (int k = 0; k < 3; ++k)
      vp_assert((x == r.l[k]) == (k == i), "the iterator stands on one field");
    auto p = z++;
    vp_assert(p == x && z == x + 1, "postfix step forward");
    p = z--;
    vp_assert(p == x + 1 && z == x, "postfix step backward");
    vp_assert(++z == x + 1 && --z == x, "steps");
    const auto a = b[i];
    switch (i) {
    case 0: vp_assert(a.get_u32() == 3 && (*x).get_u32() == 3, "the value at the iterator"); break;
    case 1: vp_assert(a.get_u64() == 4 && (*x).get_u64() == 4, "the value at the iterator"); break;
    default: vp_assert(a.get_varbinary().size() == 4 && (*x).get_varbinary().size() == 4, "the value at the iterator"); break;
    }
  }
}
VP_OBLIGATION(ob_loose) {
  row r = lay(unsigned(vp_enum("present", 0, 1)) * 14, unsigned(vp_enum("loose", 0, 3)));
  if (vp_enum("finished", 0, 1))
    random_access(r, r.t->take_asis());
  else
    random_access(r, static_cast<const tuple_rw *>(r.t));
}
