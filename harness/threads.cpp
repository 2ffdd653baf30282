/* Readers of one tuple, one schema, one buffer in several threads.
   Part A: after vp_share() a plain write to anything that already existed is a violation, so every reading
   operation is shown to leave shared memory alone.
   Part B: owners of one buffer in different threads, interleaved at every access to the reference counter. */
#include "io.h"
typedef tuple_rw_managed rwm;
typedef tuple_rw_fixed rwf;
typedef tuple_ro_managed rom;
typedef tuple_ro_weak row;
static hippeus::buffer_tag tag() { return hippeus::default_allot_tag(); }

/* one field of every storable type, fixed-offset or loose, plus a collection and one absent field */
static const unsigned TYPES[] = {text, varbin, nested, property, i8, u8, i16, u16, i32, u32, f32, t32, i64, u64, f64, d64, t64, bin96, bin128, bin160, bin192, bin224, bin256, bin320, bin384, bin512, mac, ip, ipnet};
enum { NTYPES = sizeof(TYPES) / sizeof(TYPES[0]) };
struct world {
  schema *s;
  rwm *t;
  token k, many, absent, name;
  unsigned g;
  size_t nest;
};
static world make(int place) {
  world w;
  w.g = TYPES[vp_enum("type", 0, NTYPES - 1)];
  w.s = schema::create().release();
  w.name = w.s->define_preplaced(std::string("first"), u32, false, false, nullptr);
  w.k = place ? w.s->define_preplaced(std::string("field"), genus(w.g), true, false, nullptr) : w.s->define_loose(std::string("field"), genus(w.g), false, true, false);
  w.absent = w.s->define_loose(std::string("gone"), genus(w.g), false, true, false);
  w.many = w.s->define_collection(std::string("many"), u32, true, false);
  w.t = new rwm(8, 400, w.s, tag());
  tuple_rw *const inner = vp_fresh(4, 64);
  inner->set_u32(token(u32, 1, false, true, false), 1);
  const tuple_ro *const nest = inner->take_asis();
  w.nest = nest->size();
  put(const_cast<tuple_rw *>(w.t->get_impl()), w.k, w.g, SOME, nest);
  w.t->insert_u32(w.many, 1);
  w.t->insert_u32(w.many, 2);
  w.t->set_u32(w.name, 7);
  return w;
}
template <typename T> static void numbers(const T &t, const token &k) {
  OUTCOME(a, (void)t.get_integer(k));
  OUTCOME(b, (void)t.get_unsigned(k));
  OUTCOME(c, (void)t.get_float(k));
  OUTCOME(d, (void)t.get_bool(k));
  OUTCOME(e, (void)t.get_string(k));
  OUTCOME(f, (void)t.get_datetime(k));
  (void)a, (void)b, (void)c, (void)d, (void)e, (void)f;
}
template <typename T> static void readers(const world &w, const T &t) {
  vp_assert(t.is_present(w.k) && !t.is_present(w.absent), "presence");
  vp_assert(get(t.get_impl(), w.k, w.g, w.nest) == 1, "the value");
  OUTCOME(r, (void)get(t.get_impl(), w.absent, w.g, w.nest));
  vp_assert(r == ABSENT, "no value");
  numbers(t, w.k);
  vp_assert(t.get_u32(w.name) == 7, "a neighbour");
}
/* A: tuples under construction and finished ones, weak and managed */
static void reading(int place) {
  const world w = make(place);
  switch (vp_enum("kind", 0, 4)) {
  case 0: {
    const rwm *const t = w.t;
    vp_share();
    readers(w, *t);
    vp_assert(t->validate() == nullptr && !t->empty() && t->brutto_size() >= t->netto_size() && t->loose_count() >= 2, "accounts");
    (void)t->capacity(); (void)t->is_sorted(); (void)t->have_preplaced(); (void)t->junk_bytes();
    break;
  }
  case 1: {
    const row *const t = new row(w.t->take_weak_asis());
    vp_share();
    readers(w, *t);
    vp_assert(t->validate(w.s) == nullptr && !t->empty() && t->size() > 4, "accounts");
    const row copy(*t);
    readers(w, copy);
    break;
  }
  case 2: {
    const rom *const t = new rom(w.t->move_to_ro());
    vp_share();
    readers(w, *t);
    vp_assert(t->validate(w.s) == nullptr && t->size() > 4, "accounts");
    const rom copy(*t);
    readers(w, copy);
    rom third(*t), moved(std::move(third));
    readers(w, moved);
    const row weak(t->take_weak());
    readers(w, weak);
    break;
  }
  case 3: {
    /* copies for oneself */
    const row *const t = new row(w.t->take_weak_asis());
    vp_share();
    rwm mine(rwm::clone(*t, 2, 40, w.s, tag()));
    mine.set_u32(w.name, 8);
    vp_assert(t->get_u32(w.name) == 7, "the original");
    const rom other = rom::clone(*t, w.s, tag());
    readers(w, other);
    break;
  }
  default: {
    /* a shared managed tuple becomes modifiable in one thread */
    const rom *const t = new rom(w.t->move_to_ro());
    vp_share();
    rwm mine(rwm::clone(*t, 2, 40, w.s, tag()));
    mine.set_u32(w.name, 8);
    readers(w, *t);
  }
  }
}
VP_OBLIGATION(ob_read_loose) { reading(0); }
VP_OBLIGATION(ob_read_fixed) { reading(1); }
/* iterating, collections, lookups in the schema */
template <typename T> static void walk(const world &w, const T &t) {
  unsigned n = 0, sum = 0;
  const auto c = t.collection(w.many);
  for (auto it = c.begin(); it != c.end(); ++it)
    sum += (*it).get_u32();
  vp_assert(sum == 3, "the elements");
  for (auto it = t.cbegin_loose(); it != t.cend_loose(); ++it)
    n += it->type() == u32;
  vp_assert(n == 2 || (n == 3 && w.g == u32 && w.k.is_loose()), "the loose fields");
}
VP_OBLIGATION(ob_walk) {
  const world w = make(int(vp_enum("place", 0, 1)));
  const rom *const t = new rom(w.t->move_to_ro(vp_enum("asis", 0, 1) != 0));
  vp_share();
  walk(w, *t->get_impl());
  unsigned n = 0;
  for (auto it = t->cbegin(w.s); it != t->cend(w.s); ++it)
    n += it.field_token().type() == u32;
  vp_assert(n >= 3, "all fields");
}
VP_OBLIGATION(ob_schema) {
  const world w = make(int(vp_enum("place", 0, 1)));
  const schema *const s = w.s;
  vp_share();
  vp_assert(s->get_token("field") == w.k && s->get_token("many") == w.many && s->get_token("first") == w.name, "lookup by name");
  OUTCOME(r, (void)s->get_token("nobody"));
  vp_assert(r == NOFIELD, "lookup by a foreign name");
  vp_assert(s->get_name(w.k).size() == 5, "lookup of the name");
  vp_assert(s->by_offset(w.name.preplaced_offset()) == w.name, "lookup by offset");
  (void)s->next_by_offset(0);
  (void)s->prev_by_offset(4);
}
/* B: owners of one buffer in different threads */
struct owner {
  rom *mine;
  unsigned what;
  token k;
  schema *s;
  uint32_t value;
};
static void reads(const owner &o, const rom &t) { vp_assert(t.get_u32(o.k) == o.value, "an owner sees the same value whatever the others do"); }
static void act(void *arg) {
  owner &o = *static_cast<owner *>(arg);
  reads(o, *o.mine);
  switch (o.what) {
  case 0: break;
  case 1: {
    rom copy(*o.mine);
    o.mine->purge();
    reads(o, copy);
    break;
  }
  case 2: {
    rom copy;
    copy = *o.mine;
    reads(o, copy);
    *o.mine = copy;
    reads(o, *o.mine);
    break;
  }
  case 3: {
    rom moved(std::move(*o.mine));
    reads(o, moved);
    *o.mine = std::move(moved);
    reads(o, *o.mine);
    break;
  }
  case 4: {
    rwm w(std::move(*o.mine));
    w.set_u32(o.k, o.value + 1);
    vp_assert(w.get_u32(o.k) == o.value + 1, "a modifiable tuple takes the new value");
    break;
  }
  default: {
    rom empty;
    o.mine->swap(empty);
    reads(o, empty);
  }
  }
  delete o.mine;
}
static void owners(unsigned n, int place) {
  const uint64_t before = vp_heap();
  schema *s = nullptr;
  token k(u32, 7, false, true, false);
  if (place) {
    s = schema::create().release();
    k = s->define_preplaced(std::string("first"), u32, false, false, nullptr);
  }
  const uint64_t base = vp_heap();
  const uint32_t value = uint32_t(vp_u("value", 0, 1000));
  rwm t(4, 60, s, tag());
  t.set_u32(k, value);
  rom r(t.move_to_ro());
  owner o[3];
  for (unsigned i = 0; i < n; ++i) {
    static const char *const names[] = {"first", "second", "third"};
    o[i].mine = new rom(r);
    o[i].what = unsigned(vp_enum(names[i], 0, 5));
    o[i].k = k;
    o[i].s = s;
    o[i].value = value;
  }
  vp_watch(&r.get_buffer()->ref_counter, 4);
  r.purge();
  for (unsigned i = 1; i < n; ++i)
    vp_thread(act, &o[i]);
  act(&o[0]);
  vp_join();
  vp_assert(vp_heap() == base, "the last owner releases the buffer, exactly once");
  (void)before;
}
VP_OBLIGATION(ob_owners_two) { owners(2, 0); }
VP_OBLIGATION(ob_owners_two_fixed) { owners(2, 1); }
VP_OBLIGATION(ob_deep_owners_three) { owners(3, 0); }
