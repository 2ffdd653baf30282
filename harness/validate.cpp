/* Untrusted bytes: validation reads nothing outside of what it was given, accepts what is well-formed, refuses what is
   not, and whatever it accepts can be read through every getter without leaving the buffer. The buffers below are exactly
   as long as declared, so any access outside is a violation by itself. */
#include "io.h"
#include "fast_positive/tuples/legacy.h"

/* ---- building raw tuples ---- */
struct raw {
  uint8_t *p;
  size_t bytes, index, payload; /* units */
};
static raw make(size_t index, size_t payload, unsigned flags = 0) {
  raw r;
  r.index = index;
  r.payload = payload;
  r.bytes = 4 * (1 + index + payload);
  r.p = static_cast<uint8_t *>(vp_alloc(r.bytes, 0, "untrusted"));
  vp_bytes(r.p, r.bytes, "byte");
  reinterpret_cast<uint16_t *>(r.p)[0] = uint16_t(1 + index + payload);
  reinterpret_cast<uint16_t *>(r.p)[1] = uint16_t(index << 3 | flags);
  return r;
}
/* loose field i: 16 bits of type and id, 16 bits of offset */
static void descr(const raw &r, size_t i, unsigned type, unsigned id, unsigned offset) {
  uint16_t *d = reinterpret_cast<uint16_t *>(r.p) + 2 + 2 * i;
  d[0] = uint16_t(offset);
  d[1] = uint16_t(type << 11 | id);
}
static uint16_t *word(const raw &r, size_t unit) { return reinterpret_cast<uint16_t *>(r.p + 4 * (1 + r.index + unit)); }
static bool within(const raw &r, const void *p, size_t n) {
  const uint8_t *b = static_cast<const uint8_t *>(p);
  return b >= r.p && n <= r.bytes && b + n <= r.p + r.bytes;
}
static size_t fixed_units(unsigned g) { /* size of a loose fixed-size value outside the descriptor */
  switch (g) {
  case i32: case u32: case f32: case t32: return 1;
  case i64: case u64: case f64: case d64: case t64: case mac: case app_reserved_64: return 2;
  case bin96: return 3;
  case bin128: case ip: case app_reserved_128: return 4;
  case bin160: case ipnet: return 5;
  case bin192: return 6;
  case bin224: return 7;
  case bin256: return 8;
  case bin320: return 10;
  case bin384: return 12;
  case bin512: return 16;
  default: return 0;
  }
}
/* reading by the exact type; a getter that strays is caught by the interpreter, a view that strays by the assertion */
template <typename T> static void touch(const raw &r, const T *t, const token &k, unsigned g) {
  switch (g) {
  case text: {
    const string_view v = t->get_string(k);
    vp_assert(v.size() == 0 || within(r, v.data(), v.size()), "a text lies within the tuple");
    return;
  }
  case varbin: {
    const string_view v = t->get_varbinary(k);
    vp_assert(v.size() == 0 || within(r, v.data(), v.size()), "a binary lies within the tuple");
    return;
  }
  case property: {
    const property_pair v = t->get_property(k);
    vp_assert(v.first.size() == 0 || within(r, v.first.data(), v.first.size()), "a property lies within the tuple");
    return;
  }
  case nested: {
    const tuple_ro *n = t->get_nested(k);
    vp_assert(n == nullptr || (n->size() >= 4 && within(r, n, n->size())), "a nested tuple lies within the tuple");
    return;
  }
  case i8: t->get_i8(k); return;
  case u8: t->get_u8(k); return;
  case i16: t->get_i16(k); return;
  case u16: t->get_u16(k); return;
  case i32: t->get_i32(k); return;
  case u32: t->get_u32(k); return;
  case i64: t->get_i64(k); return;
  case u64: t->get_u64(k); return;
  case f32: t->get_f32(k); return;
  case f64: t->get_f64(k); return;
  case d64: t->get_decimal(k); return;
  case t32: case t64: t->get_datetime(k); return;
  case mac: t->get_mac_address(k); return;
#define X(N, T_, G) case G: vp_assert(within(r, &t->get_##N(k), sizeof(T_)), "a binary value lies within the tuple"); return;
  VP_BINS(X)
#undef X
  default: return;
  }
}
static const char *check(const raw &r, const schema *s = nullptr) { return tuple_ro::audit(r.p, r.bytes, s, false); }
static const tuple_ro *view_of(const raw &r) { return reinterpret_cast<const tuple_ro *>(r.p); }

/* ---- the envelope ---- */
VP_OBLIGATION(ob_envelope) {
  /* any declared length against any actual one, any count of loose fields */
  const size_t units = size_t(vp_enum("actual units", 0, 5));
  const size_t rest = size_t(vp_enum("rest", 0, 3));
  const size_t bytes = units * 4 + rest;
  uint8_t *p = static_cast<uint8_t *>(vp_alloc(bytes, 0, "untrusted"));
  const unsigned brutto = unsigned(vp_u("declared units", 0, 65535));
  const unsigned count = unsigned(vp_u("loose fields", 0, 8191));
  const unsigned flags = unsigned(vp_enum("flags", 0, 7));
  VP_CELLS_U(brutto, 0, 1, 2, 3, 4, 5, 6);
  VP_CELLS_U(count, 0, 1, 2, 3, 4, 5, 6);
  if (bytes >= 4) {
    reinterpret_cast<uint16_t *>(p)[0] = uint16_t(brutto);
    reinterpret_cast<uint16_t *>(p)[1] = uint16_t(count << 3 | flags);
    for (size_t i = 4; i < bytes; ++i)
      p[i] = i % 4 == 3 ? 0x28 /* i8: nothing but the descriptor */ : 0;
  }
  const char *const trouble = tuple_ro::audit(p, bytes, nullptr, false);
  const bool fits = rest == 0 && units >= 1 && brutto == units && count + 1 == units && !(flags & 2);
  vp_assert((trouble == nullptr) == fits, "a buffer is accepted exactly if it is what its header says, with no space lost");
  vp_assert((tuple_ro::lite_checkup(p, bytes) == nullptr) == (rest == 0 && units >= 1 && brutto == units && count + 1 <= units), "the light check is about the envelope");
}
VP_OBLIGATION(ob_envelope_null) {
  const size_t bytes = size_t(vp_u("bytes", 0, UINT64_MAX));
  VP_CELLS_U(bytes, 0, 4, 262140, 262144);
  vp_assert(tuple_ro::audit(nullptr, bytes, nullptr, false) != nullptr, "no tuple is refused");
  vp_assert(tuple_ro::lite_checkup(nullptr, bytes) != nullptr, "no tuple is refused");
}
VP_OBLIGATION(ob_envelope_large) {
  void *p = vp_alloc(4, 0, "untrusted");
  const size_t bytes = size_t(vp_u("bytes", 262144, UINT64_MAX));
  vp_assert(tuple_ro::audit(p, bytes, nullptr, false) != nullptr, "an oversized tuple is refused");
}

/* ---- one field ---- */
/* every fixed-size type at every offset */
VP_OBLIGATION(ob_one_fixed) {
  const unsigned g = unsigned(vp_enum("type", i8, ipnet));
  const size_t size = fixed_units(g);
  const size_t room = size + size_t(vp_enum("spare room", 0, 2)) - (size ? 1 : 0);
  raw r = make(1, room);
  unsigned offset;
  if (vp_enum("offset beyond", 0, 1)) {
    offset = unsigned(vp_u("offset", 0, 65535));
    vp_assume(offset > room + 2);
  } else
    offset = unsigned(vp_enum("offset", 0, 18));
  vp_assume(vp_enum("far", 0, 1) || offset <= room + 2);
  descr(r, 0, g, 7, offset);
  const char *const trouble = check(r);
  if (size) {
    const bool good = offset == 1 && room == size;
    vp_assert((trouble == nullptr) == good, "a value is accepted exactly when it fills the payload");
  } else
    vp_assert((trouble == nullptr) == (room == 0), "a value inside the descriptor is accepted, space that belongs to nothing is not");
  if (trouble == nullptr)
    touch(r, view_of(r), token(genus(g), 7, false, false, false), g);
}
/* every variable-length type, every offset, every length header */
VP_OBLIGATION(ob_one_stretchy) {
  const unsigned g = unsigned(vp_enum("type", text, property));
  const size_t room = size_t(vp_enum("payload units", 0, 3));
  raw r = make(1, room);
  const unsigned offset = unsigned(vp_enum("offset", 0, 6));
  descr(r, 0, g, 7, offset);
  const bool inside = offset >= 1 && offset < 1 + room;
  unsigned lo = 0, hi = 0;
  if (inside) {
    if (g == text || g == property) {
      const unsigned b0 = unsigned(vp_u("first byte", 0, 255));
      VP_CELLS_U(b0, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 253, 254, 255);
      lo = b0;
      uint8_t *const b = reinterpret_cast<uint8_t *>(word(r, offset - 1));
      b[0] = uint8_t(b0);
      if (g == text && b0 == 0)
        b[1] = b[2] = b[3] = 0; /* references to a pool of strings are not implemented */
    } else {
      lo = unsigned(vp_u("units", 0, 65535));
      VP_CELLS_U(lo, 0, 1, 2, 3, 4, 5);
      hi = unsigned(vp_enum("tail", 0, 7));
      word(r, offset - 1)[0] = uint16_t(lo);
      word(r, offset - 1)[1] = uint16_t(hi);
    }
  }
  const char *const trouble = check(r);
  if (offset == 0) {
    vp_assert(trouble == nullptr || room > 0, "a value without content is accepted");
  } else if (!inside) {
    vp_assert(trouble != nullptr, "content outside of the tuple is refused");
  } else if (g == varbin) {
    const bool good = offset == 1 && lo == room && (lo > 1 || (hi & 3) == 0);
    vp_assert((trouble == nullptr) == good, "a binary is accepted exactly when it fills the payload and its length makes sense");
  } else if (g == property) {
    const bool good = offset == 1 && (lo + 2 + 3) / 4 == room;
    vp_assert((trouble == nullptr) == good, "a property is accepted exactly when it fills the payload");
  } else if (g == text) {
    if (lo < 254)
      vp_assert((trouble == nullptr) == (offset == 1 && (lo + 1 + 3) / 4 == room), "a text is accepted exactly when it fills the payload");
    else
      vp_assert(trouble != nullptr, "a text longer than the payload is refused");
  } else if (offset != 1 || lo != room)
    vp_assert(trouble != nullptr, "a nested tuple that does not fill the payload is refused");
  if (trouble == nullptr)
    touch(r, view_of(r), token(genus(g), 7, false, false, false), g);
}
/* far offsets: nothing is read there */
VP_OBLIGATION(ob_one_far) {
  const unsigned g = unsigned(vp_enum("type", text, hole));
  if (fixed_units(g) == 0 && g > property && g != hole)
    return;
  const size_t room = size_t(vp_enum("payload units", 0, 2));
  raw r = make(1, room);
  const unsigned offset = unsigned(vp_u("offset", 0, 65535));
  vp_assume(offset >= room + 1);
  descr(r, 0, g, 7, offset);
  vp_assert(check(r) != nullptr, "content outside of the tuple is refused");
}

/* ---- several fields ---- */
struct part {
  size_t begin, end;
};
/* something with a given footprint at unit `at` of the payload, described by field i; false if it can not be */
static bool piece(const raw &r, size_t i, unsigned kind, size_t at, size_t len) {
  const size_t n = r.index - i + at; /* from the descriptor */
  switch (kind) {
  case 0: /* fixed size */
    descr(r, i, len == 1 ? u32 : len == 2 ? u64 : bin96, unsigned(10 + i), unsigned(n));
    return true;
  case 1: /* hole */
    descr(r, i, hole, unsigned(len), unsigned(n));
    return true;
  default: /* binary */
    descr(r, i, varbin, unsigned(10 + i), unsigned(n));
    if (at < r.payload) {
      word(r, at)[0] = uint16_t(len);
      word(r, at)[1] = 0;
    }
    return true;
  }
}
static bool tiled(const part *a, size_t n, size_t room) {
  size_t sum = 0;
  for (size_t i = 0; i < n; ++i) {
    if (a[i].end > room)
      return false;
    sum += a[i].end - a[i].begin;
    for (size_t j = 0; j < i; ++j)
      if (a[i].begin < a[j].end && a[j].begin < a[i].end)
        return false;
  }
  return sum == room;
}
template <size_t N> static void several(size_t room, size_t max_len, int kinds) {
  part a[N];
  raw r = make(N, room);
  for (size_t i = 0; i < N; ++i) {
    a[i].begin = size_t(vp_enum("begin", 0, int64_t(room)));
    const size_t len = size_t(vp_enum("units", 1, int64_t(max_len)));
    a[i].end = a[i].begin + len;
    const unsigned kind = unsigned(kinds < 0 ? 0 : vp_enum("kind", 0, kinds));
    piece(r, i, kind, a[i].begin, len);
  }
  const bool good = tiled(a, N, room);
  vp_assert((check(r) == nullptr) == good, "pieces are accepted exactly when they fill the payload without overlap");
}
VP_OBLIGATION(ob_two) { several<2>(size_t(vp_enum("payload units", 1, 5)), 3, 1); }
VP_OBLIGATION(ob_three) { several<3>(size_t(vp_enum("payload units", 2, 4)), 2, -1); }
VP_OBLIGATION(ob_deep_four) { several<4>(4, 2, -1); }
VP_OBLIGATION(ob_deep_three_kinds) { several<3>(size_t(vp_enum("payload units", 3, 4)), 2, 1); }
VP_OBLIGATION(ob_binaries) {
  /* two binaries, possibly one inside the other */
  const size_t room = size_t(vp_enum("payload units", 2, 4));
  raw r = make(2, room);
  part a[2];
  for (size_t i = 0; i < 2; ++i) {
    a[i].begin = size_t(vp_enum("begin", 0, 4));
    a[i].end = a[i].begin + size_t(vp_enum("units", 1, 3));
    vp_assume(a[i].begin < room);
  }
  vp_assume(a[0].begin != a[1].begin);
  for (size_t i = 0; i < 2; ++i)
    piece(r, i, 2, a[i].begin, a[i].end - a[i].begin);
  vp_assert((check(r) == nullptr) == tiled(a, 2, room), "binaries are accepted exactly when they fill the payload without overlap");
}
/* the account of holes, and a caller who does not want any */
VP_OBLIGATION(ob_holes) {
  const size_t n = size_t(vp_enum("holes", 0, 2));
  const size_t pure = size_t(vp_enum("pure holes", 0, 2));
  size_t room = 1;
  size_t len[2] = {0, 0};
  for (size_t i = 0; i < n; ++i)
    room += len[i] = size_t(vp_enum("units", 1, 3));
  raw r = make(1 + n + pure, room);
  piece(r, 0, 0, 0, 1);
  size_t at = 1;
  for (size_t i = 0; i < n; ++i) {
    piece(r, 1 + i, 1, at, len[i]);
    at += len[i];
  }
  for (size_t i = 0; i < pure; ++i)
    descr(r, 1 + n + i, hole, 0, 0);
  audit_holes_info info;
  vp_assert(tuple_ro::audit(r.p, r.bytes, nullptr, info) == nullptr, "holes are accepted");
  vp_assert(info.count == n + pure && info.volume == room - 1, "the holes are accounted for");
  vp_assert((tuple_ro::audit(r.p, r.bytes, nullptr, true) == nullptr) == (n + pure == 0), "holes are refused when not allowed");
}
VP_OBLIGATION(ob_hole_forms) {
  /* a hole with a size but no place, or the other way around */
  raw r = make(1, 0);
  const unsigned units = unsigned(vp_u("units", 0, 2047));
  const unsigned offset = unsigned(vp_u("offset", 0, 65535));
  VP_CELLS_U(units, 0);
  VP_CELLS_U(offset, 0);
  descr(r, 0, hole, units, offset);
  vp_assert((check(r) == nullptr) == (units == 0 && offset == 0), "a hole is either pure or has a place");
}
/* the sorted mark */
VP_OBLIGATION(ob_sorted) {
  const bool mark = vp_enum("marked", 0, 1);
  raw r = make(3, 0, mark ? 1 : 0);
  unsigned tag[3];
  for (size_t i = 0; i < 3; ++i) {
    const unsigned g = unsigned(vp_enum("type", i8, u16));
    const unsigned id = unsigned(vp_enum("id", 0, 2));
    tag[i] = g << 11 | id;
    descr(r, i, g, id, 0);
  }
  const bool sorted = tag[0] <= tag[1] && tag[1] <= tag[2];
  vp_assert((check(r) == nullptr) == (!mark || sorted), "the sorted mark must be true");
}

/* ---- with a schema ---- */
VP_OBLIGATION(ob_schema_fit) {
  /* a schema that asks for more or less than the tuple has */
  const int defined = int(vp_enum("defined fields", 0, 3));
  schema *s = schema::create().release();
  for (int i = 0; i < defined; ++i)
    s->define_preplaced(std::string(vp_names[i]), u32, false, false, nullptr);
  const size_t room = size_t(vp_enum("payload units", 0, 4));
  const bool mark = vp_enum("marked", 0, 1);
  const size_t extra = size_t(vp_enum("loose fields", 0, 3)); /* their values are in the index */
  raw r = make(extra, room, mark ? 2 : 0);
  for (size_t i = 0; i < extra; ++i)
    descr(r, i, i & 1 ? u16 : u8, unsigned(7 - i), 1);
  const bool good = mark == (defined != 0) && room == size_t(defined);
  vp_assert((check(r, s) == nullptr) == good, "a tuple is accepted exactly if it fits the schema");
  if (mark)
    vp_assert(check(r) != nullptr, "preplaced fields demand a schema");
}
VP_OBLIGATION(ob_schema_stretchy) {
  /* {u32, variable-length} defined, a loose u32 or nothing besides */
  const unsigned g = unsigned(vp_enum("type", text, property));
  schema *s = schema::create().release();
  const token n = s->define_preplaced(std::string("n"), u32, false, false, nullptr);
  const token v = s->define_preplaced(std::string("v"), genus(g), true, false, nullptr);
  const bool loose = vp_enum("loose field", 0, 1);
  const size_t room = size_t(vp_enum("payload units", 1, 5));
  raw r = make(loose, room, 2);
  /* the variable-length field takes two bytes at offset 4 of the payload, its offset counts from there */
  const unsigned offset = unsigned(vp_enum("offset", 0, 5));
  if (room > 1) {
    word(r, 1)[0] = uint16_t(offset);
    word(r, 1)[1] = 0;
  }
  const size_t at = 1 + offset;
  size_t used = 0;
  if (offset && at < room && at > 1) {
    if (g == varbin || g == nested) {
      const unsigned lo = unsigned(vp_u("length", 0, 65535));
      VP_CELLS_U(lo, 0, 1, 2, 3, 4);
      word(r, at)[0] = uint16_t(lo);
      word(r, at)[1] = 0;
      used = lo ? lo : 99;
    } else {
      const unsigned b0 = unsigned(vp_u("first byte", 0, 253));
      VP_CELLS_U(b0, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12);
      uint8_t *const b = reinterpret_cast<uint8_t *>(word(r, at));
      b[0] = uint8_t(b0);
      if (g == text && b0 == 0)
        b[1] = b[2] = b[3] = 0;
      used = (b0 + (g == text ? 1 : 2) + 3) / 4;
    }
  } else if (offset)
    used = 99;
  const size_t place = 2 + used;
  if (loose)
    descr(r, 0, u32, 7, unsigned(1 + (offset && used < 99 && at == 2 ? place : 2)));
  const char *const trouble = check(r, s);
  bool good = room >= 2 && used < 99 && (offset == 0 || at >= 2);
  if (good)
    good = loose ? (offset == 0 ? room == 3 : at == 2 ? room == place + 1 : at == 3 && room == 3 + used)
                 : (offset == 0 ? true : at == 2 && room == place);
  if (!good)
    vp_assert(trouble != nullptr, "content that is not where it should be is refused");
  else if (offset || loose || room == 2)
    vp_assert(trouble == nullptr, "a well-formed tuple is accepted");
  if (trouble == nullptr) {
    view_of(r)->get_u32(n);
    if (offset)
      touch(r, view_of(r), v, g);
    if (loose)
      view_of(r)->get_u32(token(u32, 7, false, true, false));
  }
}

/* ---- whoever takes raw bytes validates them ---- */
enum { BAD_OVERLAP, BAD_OUTSIDE, BAD_GAP, BAD_MARK, BAD_UNSORTED, BAD_SIZE, BAD_LENGTH, BAD_HOLE, GOOD, GOOD_EMPTY, KINDS };
static raw specimen(int kind) {
  raw r = make(kind == GOOD_EMPTY ? 0 : 2, kind == GOOD_EMPTY ? 0 : 3, kind == BAD_MARK ? 2 : kind == BAD_UNSORTED ? 1 : 0);
  if (kind == GOOD_EMPTY)
    return r;
  descr(r, 0, u64, 9, kind == BAD_OUTSIDE ? 900 : 2);
  if (kind == BAD_HOLE)
    descr(r, 1, hole, 1, 0);
  else
    descr(r, 1, varbin, 10, kind == BAD_OVERLAP ? 2 : 3);
  word(r, 1)[0] = word(r, 2)[0] = kind == BAD_LENGTH ? 0 : 1;
  word(r, 1)[1] = word(r, 2)[1] = 0;
  if (kind == BAD_GAP)
    descr(r, 0, u32, 9, 2);
  if (kind == BAD_SIZE)
    reinterpret_cast<uint16_t *>(r.p)[0] += 1;
  return r;
}
#define ADMIT(X)                                                                                  \
  const int kind = int(vp_enum("specimen", 0, KINDS - 1));                                        \
  const raw r = specimen(kind);                                                                   \
  OUTCOME(o, X);                                                                                  \
  vp_assert((o == OK) == (kind >= GOOD), "raw bytes are admitted exactly when they are well-formed"); \
  vp_assert(o == OK || o == BADTUPLE, "malformed bytes are reported as a bad tuple");
VP_OBLIGATION(ob_admit_weak) { ADMIT(tuple_ro_weak(r.p, r.bytes, nullptr)) }
VP_OBLIGATION(ob_admit_weak_enforced) { ADMIT(tuple_ro_weak(r.p, r.bytes, nullptr, enforce_validation)) }
VP_OBLIGATION(ob_admit_managed) { ADMIT(tuple_ro_managed(r.p, r.bytes, nullptr, hippeus::default_allot_tag())) }
VP_OBLIGATION(ob_admit_fixed) { ADMIT(tuple_rw_fixed(r.p, r.bytes, 1, 16, nullptr, hippeus::buffer_tag())) }
VP_OBLIGATION(ob_admit_growing) { ADMIT(tuple_rw_managed(r.p, r.bytes, 1, 16, nullptr, hippeus::buffer_tag())) }
VP_OBLIGATION(ob_admit_clone) {
  ADMIT(tuple_ro_managed::clone(tuple_ro_weak(r.p, r.bytes, nullptr, enforce_skip_validation), nullptr, hippeus::default_allot_tag(), enforce_validation))
}
VP_OBLIGATION(ob_admit_schema) {
  /* a schema is a reason to validate again */
  const int defined = int(vp_enum("defined", 0, 2));
  schema *s = schema::create().release();
  for (int i = 0; i < defined; ++i)
    s->define_preplaced(std::string(vp_names[i]), u32, false, false, nullptr);
  raw r = make(0, 1, 2);
  OUTCOME(weak, tuple_ro_weak(r.p, r.bytes, s));
  vp_assert(weak == (defined == 1 ? OK : BADTUPLE), "raw bytes are admitted exactly when they fit the schema");
  OUTCOME(managed, tuple_ro_managed(r.p, r.bytes, s, hippeus::default_allot_tag()));
  vp_assert(managed == (defined == 1 ? OK : BADTUPLE), "raw bytes are admitted exactly when they fit the schema");
  OUTCOME(fixed, tuple_rw_fixed(r.p, r.bytes, 1, 16, s, hippeus::buffer_tag()));
  vp_assert(fixed == (defined == 1 ? OK : BADTUPLE), "raw bytes are admitted exactly when they fit the schema");
  OUTCOME(cloned, tuple_ro_managed::clone(tuple_ro_weak(r.p, r.bytes, nullptr, enforce_skip_validation), s, hippeus::default_allot_tag()));
  vp_assert(cloned == (defined == 1 ? OK : BADTUPLE), "a clone is admitted exactly when it fits the schema");
}
VP_OBLIGATION(ob_admit_hollow) {
  const size_t bytes = size_t(vp_u("bytes", 0, 3));
  void *p = vp_alloc(4, 0, "untrusted");
  const int which = int(vp_enum("constructor", 0, 1));
  void *const q = vp_enum("null", 0, 1) ? nullptr : p;
  OUTCOME(o, if (which) tuple_ro_managed(q, bytes, nullptr, hippeus::default_allot_tag()); else tuple_ro_weak(q, bytes, nullptr));
  vp_assert(o == HOLLOW || o == BADTUPLE, "nothing is not a tuple");
}
VP_OBLIGATION(ob_admit_legacy) {
  const int kind = int(vp_enum("specimen", 0, KINDS - 1));
  const raw r = specimen(kind);
  fptu_ro ro;
  ro.sys.iov_base = r.p;
  ro.sys.iov_len = r.bytes;
  vp_assert((fptu_check_ro(ro) == nullptr) == (kind >= GOOD), "the C check tells well-formed tuples from others");
  const char *trouble = nullptr;
  fptu_cbfs_result cbfs;
  vp_assert((fptu_check_and_get_buffer_size_ex(ro, 1, 16, &cbfs) > 0) == (kind >= GOOD), "the C check gives a size exactly for well-formed tuples");
  vp_assert((cbfs.err == FPTU_OK) == (kind >= GOOD), "the C check gives an error exactly for malformed tuples");
  const size_t size = fptu_check_and_get_buffer_size(ro, 1, 16, &trouble);
  vp_assert((size > 0) == (kind >= GOOD), "the C check gives a size exactly for well-formed tuples");
  vp_assert((trouble == nullptr) == (kind >= GOOD), "the C check gives a reason exactly for malformed tuples");
  void *space = vp_alloc(512, 0, "space");
  fptu_rw *rw = fptu_fetch_ex(ro, space, 512, 1, &cbfs);
  vp_assert((rw != nullptr) == (kind >= GOOD), "the C fetch admits exactly well-formed tuples");
}
/* an index as large as the format allows */
static uint32_t full[1 + 8191 + 1];
VP_OBLIGATION(ob_full) {
  schema *s = schema::create().release();
  const token k = s->define_preplaced(std::string("v"), text, true, false, nullptr);
  full[0] = 8193 | 8191u << 19 | 2u << 16;
  OUTCOME(o, tuple_ro_weak(full, sizeof(full), s));
  vp_assert(o == OK, "a tuple with the largest index is accepted");
}
/* a tuple as large as the format allows: one binary that fills it */
static uint32_t largest[65536];
VP_OBLIGATION(ob_largest) {
  const uint32_t units = uint32_t(vp_enum("units", 65530, 65535));
  largest[0] = units | 1u << 19;
  largest[1] = 1u | uint32_t(varbin) << 27 | 5u << 16;
  largest[2] = units - 2;
  const size_t bytes = size_t(units) * 4;
  vp_assert(tuple_ro::audit(largest, bytes, nullptr, true) == nullptr, "a tuple of up to the largest size is accepted");
  vp_assert(tuple_ro::lite_checkup(largest, bytes) == nullptr, "a tuple of up to the largest size is accepted");
  vp_assert(tuple_ro::audit(largest, bytes + 4, nullptr, true) != nullptr, "a tuple of another size than its header says is refused");
  OUTCOME(o, tuple_ro_weak(largest, bytes, nullptr));
  vp_assert(o == OK, "a tuple of up to the largest size is accepted");
  const tuple_ro *const ro = reinterpret_cast<const tuple_ro *>(largest);
  vp_assert(ro->get_varbinary(token(varbin, 5, false, true, false)).size() == size_t(units - 3) * 4, "its field is as long as it says");
}
