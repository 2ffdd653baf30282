/* Every form of creating and copying a tuple: explicit room, a scale, the defaults; the result has the contents of the source, the
   schema asked for, the room asked for, and takes its memory where it was told. */
#include "io.h"
typedef tuple_rw_managed rwm;
typedef tuple_rw_fixed rwf;
typedef tuple_ro_managed rom;
static hippeus::buffer_tag tag() { return hippeus::default_allot_tag(); }
static const token A(u32, 900, false, true, false), B(varbin, 901, false, true, false);
static const unsigned items[] = {32, 128, 512, 2048, 8191};
static const unsigned room[] = {1000, 4000, 16000, 64000, 220000}, more[] = {850, 3500, 14000, 57000, 229000};

static token make(std::unique_ptr<schema> &s, bool wide) {
  s = schema::create();
  if (wide)
    s->define_preplaced(std::string("w"), bin512, false, false, nullptr);
  return s->define_preplaced(std::string("n"), u32, false, false, nullptr);
}
template <typename T> static void filled(const T &t, const token &n, uint32_t v) {
  vp_assert(t.get_u32(n) == v && t.get_u32(A) == (v ^ 0x55u), "the contents are those of the source");
  vp_assert(t.get_varbinary(B).size() == 5 && t.get_varbinary(B).data()[4] == 'e', "the contents are those of the source");
}
template <typename T> static void fill(T &t, const token &n, uint32_t v) {
  t.set_u32(n, v);
  t.set_u32(A, v ^ 0x55u);
  t.set_varbinary(B, string_view("abcde", 5));
}
template <typename T> static void empty(T &t, const schema *s, initiation_scale scale, const token &n) {
  vp_assert(t.schema() == s, "the schema is the one asked for");
  vp_assert(t.loose_count() == 0 && t.junk_bytes() == 0 && t.validate() == nullptr, "a new tuple is empty");
  vp_assert(t.head_space() >= items[scale], "the scale tells how many fields fit");
  vp_assert(t.tail_space_bytes() >= room[scale] && t.tail_space_bytes() <= 262140, "the scale tells how much data fits");
  fill(t, n, 77);
  filled(t, n, 77);
  vp_assert(t.validate() == nullptr, "it can be filled");
}
template <typename T> static void copied(T &t, const schema *s, initiation_scale scale, const token &n, uint32_t v) {
  vp_assert(t.schema() == s, "the schema is the one asked for");
  filled(t, n, v);
  vp_assert(t.loose_count() == 2 && t.junk_bytes() == 0 && t.validate() == nullptr, "the contents are those of the source");
  if (scale < extreme) {
    vp_assert(t.head_space() >= items[scale] - 2, "the scale tells how many fields fit");
    vp_assert(t.tail_space_bytes() >= more[scale], "the scale tells how much data fits");
  }
  t.set_u32(token(u32, 902, false, true, false), 1);
  filled(t, n, v);
  vp_assert(t.validate() == nullptr, "it can be filled");
}
static initiation_scale scale() { return initiation_scale(vp_enum("scale", tiny, extreme)); }

template <typename T> static void create() {
  const uint64_t none = vp_heap();
  std::unique_ptr<schema> mine;
  const token n = make(mine, false);
  std::unique_ptr<schema> common;
  const token d = make(common, true);
  const schema *const c = common.get();
  const initiation_scale other = initiation_scale(vp_enum("default", tiny, extreme)), scale_ = scale();
  vp_assert(vp_heap() > none, "schemas are alive");
  defaults::setup(other, std::move(common), tag());
  const uint64_t before = vp_heap();
  switch (vp_enum("form", 0, 3)) {
  case 0: { T t{defaults()}; empty(t, c, other, d); vp_assert(vp_heap() == before + 1, "one buffer"); break; }
  case 1: { T t(scale_); empty(t, c, scale_, d); break; }
  case 2: { T t; empty(t, c, scale_default, d); break; }
  default: { T t(scale_, mine.get(), tag()); empty(t, mine.get(), scale_, n); break; }
  }
  vp_assert(vp_heap() == before, "the buffer is released");
  defaults::setup(tiny, nullptr, tag());
}
VP_OBLIGATION(ob_create_fixed) { create<rwf>(); }
VP_OBLIGATION(ob_create_growing) { create<rwm>(); }

/* from a finished tuple, from raw bytes, from a tuple under construction */
template <typename T> static void copy(int from) {
  std::unique_ptr<schema> common, mine;
  const token d = make(common, false), n = make(mine, false);
  const schema *const c = common.get();
  const initiation_scale other = initiation_scale(vp_enum("default", tiny, large)), scale_ = initiation_scale(vp_enum("scale", tiny, large));
  defaults::setup(other, std::move(common), tag());
  const uint32_t v = uint32_t(vp_u("value", 0, UINT32_MAX));
  const uint64_t before = vp_heap();
  {
    rwf src(4, 40, c, tag());
    fill(src, d, v);
    const tuple_ro_weak w = src.take_weak_asis();
    const int form = int(vp_enum("form", 0, 4));
    switch (from) {
    case 0: {
      switch (form) {
      case 0: { T t = T::clone(w, defaults()); copied(t, c, other, d, v); break; }
      case 1: { T t = T::clone(w, scale_); copied(t, c, scale_, d, v); break; }
      case 2: { T t = T::clone(w); copied(t, c, scale_default, d, v); break; }
      case 3: { T t = T::clone(w, scale_, mine.get(), tag()); copied(t, mine.get(), scale_, n, v); break; }
      default: { T t = T::clone(w, 0, 0, mine.get(), tag()); vp_assert(t.schema() == mine.get() && t.validate() == nullptr, "the schema is the one asked for"); filled(t, n, v); break; }
      }
      break;
    }
    case 1: {
      const void *const p = w.data();
      const size_t size = w.size();
      switch (form) {
      case 0: { T t(p, size, defaults()); copied(t, c, other, d, v); break; }
      case 1: { T t(p, size, scale_); copied(t, c, scale_, d, v); break; }
      case 2: { T t(p, size); copied(t, c, scale_default, d, v); break; }
      case 3: { T t(p, size, scale_, mine.get(), tag()); copied(t, mine.get(), scale_, n, v); break; }
      default: { T t(p, size, 0, 0, mine.get(), tag()); vp_assert(t.schema() == mine.get() && t.validate() == nullptr, "the schema is the one asked for"); filled(t, n, v); break; }
      }
      break;
    }
    case 2: {
      const details::audit_holes_info none = {0, 0};
      switch (form) {
      case 0: { T t(none, w, defaults()); copied(t, c, other, d, v); break; }
      case 1: { T t(none, w, scale_); copied(t, c, scale_, d, v); break; }
      case 2: { T t(none, w); copied(t, c, scale_default, d, v); break; }
      case 3: { T t(none, w, scale_, mine.get(), tag()); copied(t, mine.get(), scale_, n, v); break; }
      default: { T t(none, w, 0, 0, mine.get(), tag()); vp_assert(t.schema() == mine.get() && t.validate() == nullptr, "the schema is the one asked for"); filled(t, n, v); break; }
      }
      break;
    }
    case 3: {
      rwf again(4, 40, vp_enum("same schema", 0, 1) ? c : mine.get(), tag());
      fill(again, d, v);
      const rom r(std::move(again));
      switch (form) {
      case 0: { T t = T::clone(r, defaults()); copied(t, c, other, d, v); break; }
      case 1: { T t = T::clone(r, scale_); copied(t, c, scale_, d, v); break; }
      case 2: { T t = T::clone(r); copied(t, c, scale_default, d, v); break; }
      case 3: { T t = T::clone(r, scale_, mine.get(), tag()); copied(t, mine.get(), scale_, n, v); break; }
      default: { T t = T::clone(r, 0, 0, mine.get(), tag()); vp_assert(t.schema() == mine.get() && t.validate() == nullptr, "the schema is the one asked for"); filled(t, n, v); break; }
      }
      filled(r, d, v);
      break;
    }
    default: {
      switch (form) {
      case 0: { T t = T::clone(src); vp_assert(t.schema() == c && t.head_space() >= src.head_space() && t.tail_space_bytes() >= src.tail_space_bytes() && t.validate() == nullptr, "a copy has the same room"); filled(t, d, v); break; }
      case 1: { T t = T::clone(src, scale_, tag()); copied(t, c, scale_, d, v); break; }
      case 2: { T t = T::clone(src, 2, 100, tag()); vp_assert(t.schema() == c && t.head_space() >= 2 && t.tail_space_bytes() >= 100 && t.validate() == nullptr, "a copy has the room asked for"); filled(t, d, v); break; }
      case 3: { T t(std::move(src)); vp_assert(!src && t.schema() == c && t.validate() == nullptr, "a move leaves the source empty"); filled(t, d, v); break; }
      default: { T t(1, 4, nullptr, tag()); t = std::move(src); vp_assert(!src && t.schema() == c && t.validate() == nullptr, "a move leaves the source empty"); filled(t, d, v); break; }
      }
      break;
    }
    }
    if (src)
      filled(src, d, v);
  }
  vp_assert(vp_heap() == before, "the buffers are released");
  defaults::setup(tiny, nullptr, tag());
}
#define X(N, F) VP_OBLIGATION(ob_copy_fixed_##N) { copy<rwf>(F); } VP_OBLIGATION(ob_copy_growing_##N) { copy<rwm>(F); }
X(weak, 0) X(raw, 1) X(holes, 2) X(managed, 3) X(rw, 4)

/* finished tuples: from raw bytes, from a weak reference, from a tuple under construction by copy, move and assignment */
VP_OBLIGATION(ob_finish) {
  std::unique_ptr<schema> mine;
  const token n = make(mine, vp_enum("wide", 0, 1) != 0);
  const schema *const s = mine.get();
  const uint32_t v = uint32_t(vp_u("value", 0, UINT32_MAX));
  const uint64_t before = vp_heap();
  {
    rwf src(4, 40, s, tag());
    fill(src, n, v);
    const tuple_ro_weak w = src.take_weak_asis();
    rom r;
    switch (vp_enum("form", 0, 7)) {
    case 0: r = rom(w.data(), w.size(), s, tag()); break;
    case 1: r = rom::clone(w, s, tag()); break;
    case 2: r = rom(src, tag()); break;
    case 3: r = rom::clone(src, tag()); break;
    case 4: { rom x(std::move(src)); vp_assert(!src, "a move leaves the source empty"); r = x; break; }
    case 5: r = std::move(src); vp_assert(!src, "a move leaves the source empty"); break;
    case 6: { rom x(w.data(), w.size(), s, tag()); r = std::move(x); vp_assert(!x, "a move leaves the source empty"); break; }
    default: r = src.move_to_ro(); vp_assert(!src, "a move leaves the source empty"); break;
    }
    filled(r, n, v);
    vp_assert(r.validate(s) == nullptr && !r.empty(), "a finished tuple is valid");
    if (src) {
      src.set_u32(A, 1);
      src.set_varbinary(B, string_view("x", 1));
      src.reset();
    }
    filled(r, n, v);
    rom q(r), p;
    p = q;
    r.purge();
    filled(q, n, v);
    filled(p, n, v);
    q = rom();
    filled(p, n, v);
  }
  vp_assert(vp_heap() == before, "the buffers are released");
}
/* a reference into somebody's buffer */
VP_OBLIGATION(ob_master) {
  const uint64_t before = vp_heap();
  {
    rwf x(4, 40, nullptr, tag()), y(4, 40, nullptr, tag());
    fill(x, token(u32, 1, false, true, false), 5);
    fill(y, token(u32, 1, false, true, false), 6);
    const rom a(std::move(x)), b(std::move(y));
    rom r;
    const int form = int(vp_enum("form", 0, 3));
    OUTCOME(o, r = form == 0 ? rom(a.take_weak(), a) : form == 1 ? rom(a.take_weak(), b) : form == 2 ? rom(tuple_ro_weak(), a) : rom(a.take_weak(), rom()));
    vp_assert((o == OK) == (form == 0 || form == 2), "a reference is admitted only into the buffer it lies in");
    vp_assert(bool(r) == (form == 0), "nothing refers to nothing");
    if (form == 0)
      filled(r, token(u32, 1, false, true, false), 5);
    filled(b, token(u32, 1, false, true, false), 6);
    filled(a, token(u32, 1, false, true, false), 5);
  }
  vp_assert(vp_heap() == before, "the buffers are released");
}
