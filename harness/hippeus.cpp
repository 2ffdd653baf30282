/* Managed buffers: guards, tags, room; memory helpers; tagged pointers. */
#include "io.h"
#include "fast_positive/tuples/1Hippeus/utils.h"
#include "fast_positive/tuples/details/tagged_pointer.h"
#include "fast_positive/tuples/details/utils.h"
typedef hippeus::buffer buf;
typedef hippeus::buffer_tag btag;
/* memory helpers work by aligned words: exactly the asked bytes may change or count */
VP_OBLIGATION(ob_pollute) {
  const size_t from = size_t(vp_enum("from", 0, 9)), n = size_t(vp_enum("bytes", 0, 20));
  uint8_t *const m = static_cast<uint8_t *>(vp_alloc(48, 0, "m")), *const was = static_cast<uint8_t *>(vp_alloc(48, 0, "was"));
  vp_bytes(m, 48, "m");
  for (int i = 0; i < 48; ++i)
    was[i] = m[i];
  const uint64_t mask = 0x8142241899663cffull;
  hippeus::pollute(m + 8 + from, ptrdiff_t(n), mask);
  for (size_t i = 0; i < 48; ++i) {
    const bool in = i >= 8 + from && i < 8 + from + n;
    vp_assert(m[i] == (in ? uint8_t(was[i] ^ uint8_t(mask >> i % 8 * 8)) : was[i]), "exactly the bytes of the range are changed");
  }
  hippeus::pollute(m + 8 + from, ptrdiff_t(n), mask);
  for (size_t i = 0; i < 48; ++i)
    vp_assert(m[i] == was[i], "twice the same mask gives the original");
}
VP_OBLIGATION(ob_pollute_any) {
  const size_t from = size_t(vp_enum("from", 0, 7)), n = size_t(vp_enum("bytes", 0, 19));
  uint8_t *const m = static_cast<uint8_t *>(vp_alloc(48, 0, "m")), *const was = static_cast<uint8_t *>(vp_alloc(48, 0, "was"));
  vp_bytes(m, 48, "m");
  for (int i = 0; i < 48; ++i)
    was[i] = m[i];
  hippeus::pollute(m + 8 + from, ptrdiff_t(n));
  for (size_t i = 0; i < 48; ++i)
    if (i < 8 + from || i >= 8 + from + n)
      vp_assert(m[i] == was[i], "bytes outside the range are not changed");
}
VP_OBLIGATION(ob_zeroed) {
  static const size_t starts[] = {0, 1, 3, 7};
  const size_t from = starts[vp_enum("from", 0, 3)], n = size_t(vp_enum("bytes", 0, 18)), at = size_t(vp_enum("at", 6, 34));
  uint8_t *const m = static_cast<uint8_t *>(vp_alloc(48, 0, "m"));
  for (int i = 0; i < 48; ++i)
    m[i] = 0;
  const uint64_t v = vp_u("byte", 0, 255);
  VP_CELLS_U(v, 0);
  m[at] = uint8_t(v);
  const bool in = at >= 8 + from && at < 8 + from + n;
  vp_assert(hippeus::is_zeroed(m + 8 + from, ptrdiff_t(n)) == (n > 0 && !(in && v != 0)), "zeroed if all bytes of the range are zero and it is not empty");
}
VP_OBLIGATION(ob_zeroed_among) {
  const size_t from = size_t(vp_enum("from", 0, 8)), n = size_t(vp_enum("bytes", 1, 20));
  uint8_t *const m = static_cast<uint8_t *>(vp_alloc(48, 0, "m"));
  for (size_t i = 0; i < 48; ++i)
    m[i] = i >= 8 + from && i < 8 + from + n ? 0 : 0xff;
  vp_assert(hippeus::is_zeroed(m + 8 + from, ptrdiff_t(n)), "what is around does not matter");
}
VP_OBLIGATION(ob_log2size) {
  const unsigned lo = unsigned(vp_enum("min", 0, 6)), step = unsigned(vp_enum("step", 1, 3)), steps = unsigned(vp_enum("steps", 1, 5)), hi = lo + step * steps;
  const uint64_t v = vp_u("value", 0, UINT64_MAX);
  uint64_t pts[16], *p = pts;
  for (unsigned k = 0; k <= steps; ++k) {
    *p++ = uint64_t(1) << (lo + step * k);
    *p++ = (uint64_t(1) << (lo + step * k)) + 1;
  }
  vp_cells_u(v, pts, size_t(p - pts));
  uint64_t want = uint64_t(1) << hi;
  for (unsigned k = steps; k-- > 0;)
    if (v <= uint64_t(1) << (lo + step * k))
      want = uint64_t(1) << (lo + step * k);
  vp_assert(hippeus::log2size(v, lo, hi, step) == want, "the least permitted size that suffices, or the largest one");
}
/* tags */
VP_OBLIGATION(ob_tag_parts) {
  const unsigned id = unsigned(vp_u("allot", 0, (1u << 28) - 1)), depot = unsigned(vp_u("depot", 0, 65535)), crate = unsigned(vp_u("crate", 0, 65535));
  static const unsigned fl[] = {0, HIPPEUS_READONLY, HIPPEUS_SCARCE, HIPPEUS_READONLY | HIPPEUS_SCARCE, HIPPEUS_FLAG_RESERVED, 13};
  const unsigned f = fl[vp_enum("flags", 0, 5)];
  const btag t(id, depot, crate, hippeus_buffer_flags(f));
  vp_assert(t.allot_id() == id && t.allot_depot() == depot && t.allot_crate() == crate && unsigned(t.flags()) == f, "a tag gives back its parts");
  vp_assert(t.flags_test(HIPPEUS_READONLY) == ((f & HIPPEUS_READONLY) != 0) && t.flags_test(HIPPEUS_SCARCE) == ((f & HIPPEUS_SCARCE) != 0) && !t.flags_test(HIPPEUS_LOCALWEAK), "flags of a tag");
  const btag u(t), none;
  vp_assert(u == t && !(u != t) && !none && !none.raw(), "tags compare");
  vp_assert(bool(t) == (id || depot || crate || f), "tags compare");
}
VP_OBLIGATION(ob_tag_local) {
  const bool ro = vp_enum("readonly", 0, 1) != 0;
  const btag t(&hippeus_allot_stdcxx, ro);
  vp_assert(t.local_allot() == &hippeus_allot_stdcxx && t.flags_test(HIPPEUS_LOCALWEAK) && t.flags_test(HIPPEUS_READONLY) == ro && bool(t), "the tag of a local allocator gives it back");
  vp_assert(hippeus::default_allot_tag() == btag(&hippeus_allot_stdcxx, false), "the default tag");
}
/* buffers */
static size_t room() {
  const size_t n = vp_u("bytes", 1, fptu::buffer_limit);
  VP_CELLS_U(n, 1, 2, 40, 63, 64, 65, 4096, fptu::buffer_limit - 1, fptu::buffer_limit);
  return n;
}
VP_OBLIGATION(ob_borrow) {
  const size_t n = room();
  const uint64_t heap = vp_heap();
  buf *const b = buf::borrow(vp_enum("tag", 0, 1) ? hippeus::default_allot_tag() : btag(), n, vp_enum("leastwise", 0, 1) != 0);
  vp_assert(b->size() >= n, "at least as asked");
  vp_assert(b->check() && b->ensure() && b->is_solid() && b->is_alterable() && b->is_localweak() && !b->is_readonly() && !b->is_warpable(), "a fresh buffer is whole and belongs to its borrower");
  vp_assert(b->begin() == b->data() && b->end() == b->begin() + b->size() && b->cbegin() == b->begin() && b->cend() == b->end(), "its extent");
  b->begin()[0] = 0xff;
  b->begin()[n - 1] = 0xff;
  b->end()[-1] = 0xff;
  vp_assert(b->check() && b->size() >= n, "all of the room can be used");
  b->add_reference();
  vp_assert(!b->is_alterable() && b->check(), "shared");
  b->detach();
  vp_assert(b->is_alterable() && b->check(), "shared no more");
  b->detach();
  vp_assert(vp_heap() == heap, "released");
}
VP_OBLIGATION(ob_borrow_all) {
  static const size_t sizes[] = {1, 2, 7, 8, 31, 64, 100};
  const size_t n = sizes[vp_enum("bytes", 0, 6)];
  buf *const b = buf::borrow(hippeus::default_allot_tag(), n, true);
  for (size_t i = 0; i < b->size(); ++i)
    b->begin()[i] = uint8_t(0xff);
  vp_assert(b->check() && b->begin()[b->size() - 1] == 0xff, "all of the room can be used");
  b->bzero();
  vp_assert(b->check() && hippeus::is_zeroed(b->begin(), ptrdiff_t(b->size())), "cleared as a whole");
  b->detach();
}
VP_OBLIGATION(ob_borrow_refused) {
  const uint64_t n = vp_u("bytes", fptu::buffer_limit + 1, UINT64_MAX);
  const size_t want = vp_enum("none", 0, 1) ? 0 : size_t(n);
  const uint64_t heap = vp_heap();
  OUTCOME(o, buf::borrow(hippeus::default_allot_tag(), want, true));
  vp_assert(o == BADARG && vp_heap() == heap, "an unreasonable size is refused");
  bool refused = false;
  try {
    buf::borrow(btag(7, 1, 2, hippeus_buffer_flags(0)), 100, true);
  } catch (const fptu::invalid_allot &) {
    refused = true;
  }
  vp_assert(refused && vp_heap() == heap, "an unknown allocator is refused");
}
/* damage is noticed: zeros, ones, a changed derived half, a foreign guard, no owner, no host */
VP_OBLIGATION(ob_damage) {
  buf *const b = buf::borrow(hippeus::default_allot_tag(), 100, true);
  hippeus_hipagut_t *const over = reinterpret_cast<hippeus_hipagut_t *>(b->end());
  hippeus_hipagut_t *const g = vp_enum("guard", 0, 2) == 0 ? &b->guard_head : vp_enum("guard", 0, 1) ? &b->guard_under : over;
  switch (vp_enum("damage", 0, 8)) {
  case 0: g->body = 0; break;
  case 1: g->body = ~uint64_t(0); break;
  case 2: g->random_chirp = uint32_t(vp_u("small", 0, 0xffff)); break;
  case 3: g->random_chirp = uint32_t(vp_u("large", 0xffff0000u, 0xffffffffu)); break;
  case 4: g->derived_mesh = g->derived_mesh ^ (uint32_t(1) << vp_enum("bit", 0, 31)); break;
  case 5: g->derived_mesh = g->derived_mesh + uint32_t(vp_u("change", 1, 0xffffffffu)); break;
  case 6: b->ref_counter = int32_t(vp_i("owners", INT32_MIN, 0)); break;
  case 7: b->host.opacity_.uint = 0; break;
  case 8: HIPAGUT_DROWN(*g); break;
  }
  vp_assert(!b->check() && !b->check_expect_invalid(), "damage is noticed");
  bool raised = false;
  try {
    b->ensure();
  } catch (const fptu::bug &) {
    raised = true;
  }
  vp_assert(raised, "damage is reported");
}
VP_OBLIGATION(ob_guard) {
  hippeus_hipagut_t g, h, l;
  static const uint32_t sigs[] = {0, 1, 0x7fffffff, 0x80000000u, 0xffffffffu, 0x12345678, HIPAGUT_N42(head), HIPAGUT_N42(under)};
  const uint32_t sig = sigs[vp_enum("signature", 0, 7)], other = sigs[vp_enum("other", 0, 7)];
  hipagut_setup(&g, sig);
  vp_assert(hipagut_probe(&g, sig), "a guard holds");
  hipagut_setup(&h, other);
  hipagut_setup_link(&l, &h);
  vp_assert(hipagut_probe_link(&l, &h), "a linked guard holds");
  HIPAGUT_DROWN(g);
  vp_assert(!hipagut_probe(&g, sig), "a revoked guard does not");
}
/* tagged pointers */
template <class P> static void tagged(unsigned limit, bool set) {
  int *const p = static_cast<int *>(vp_alloc(64, 0, "p")), *const q = static_cast<int *>(vp_alloc(64, 0, "q"));
  const unsigned t = unsigned(vp_u("tag", 0, limit)), u = unsigned(vp_u("other tag", 0, limit));
  P x;
  vp_assert(x.get() == nullptr && x.tag() == 0, "empty");
  if (set)
    x.set(p, t);
  else
    x = P(p, t);
  vp_assert(x.get() == p && x.tag() == t, "a tagged pointer gives back the pointer and the tag");
  x.set_tag(u);
  vp_assert(x.get() == p && x.tag() == u, "changing the tag keeps the pointer");
  x.set_ptr(q);
  vp_assert(x.get() == q && x.tag() == u && &x[3] == q + 3 && &*x == q, "changing the pointer keeps the tag");
  P y(p, t);
  y.swap(x);
  vp_assert(x.get() == p && x.tag() == t && y.get() == q && y.tag() == u, "swap");
}
VP_OBLIGATION(ob_tagged_narrow) { tagged<fptu::tagged_pointer<int, fptu::narrow_tagged_pointer_base>>(15, vp_enum("set", 0, 1) != 0); }
VP_OBLIGATION(ob_tagged_wide) { tagged<fptu::tagged_pointer<int, fptu::wide_tagged_pointer_base>>(65535, vp_enum("set", 0, 1) != 0); }
/* small helpers on byte sequences of every length */
template <size_t N> static void bytes_() {
  uint8_t *const m = static_cast<uint8_t *>(vp_alloc(N + 16, 0, "m"));
  const size_t at = size_t(vp_enum("at", 0, 72));
  vp_assume(at < N);
  const uint64_t v = vp_u("byte", 0, 255);
  VP_CELLS_U(v, 0, 1, 127, 128, 254, 255);
  for (size_t i = 0; i < N + 16; ++i)
    m[i] = i < N ? 0 : 0xff;
  m[at] = uint8_t(v);
  vp_assert(utils::is_zero<N>(m) == (v == 0), "zero if every byte is");
  for (size_t i = 0; i < N + 16; ++i)
    m[i] = i < N ? 0xff : 0;
  m[at] = uint8_t(v);
  vp_assert(utils::is_allones<N>(m) == (v == 255), "all ones if every byte is");
}
#define X(N) VP_OBLIGATION(ob_bytes_##N) { bytes_<N>(); }
X(1) X(2) X(3) X(4) X(5) X(6) X(7) X(8) X(12) X(16) X(17) X(20) X(32) X(64)
#undef X
VP_OBLIGATION(ob_align) {
  const uint64_t v = vp_u("value", 0, UINT64_MAX / 2);
  const unsigned k = unsigned(vp_enum("bits", 0, 12));
  const uint64_t a = uint64_t(1) << k, c = utils::ceil<uint64_t>(v, intptr_t(a));
  vp_assert(c >= v && c - v < a && (c & (a - 1)) == 0, "rounded up to the next multiple");
  const uint64_t f = utils::floor<uint64_t, 8>(v);
  vp_assert(f <= v && v - f < 8 && (f & 7) == 0, "rounded down to a multiple");
  const uint64_t p = uint64_t(1) << vp_enum("power", 0, 63);
  vp_assert(utils::is_power2(p) && (p < 4 || !utils::is_power2(p - 1)) && (p < 2 || !utils::is_power2(p | 1)) && !utils::is_power2(uint64_t(0)), "powers of two");
}
