/* Building blocks: byte order, carries, wide products, leading zeros, absolute values, the allocation arena, the guarded allocator. */
#include "io.h"
#include "fast_positive/erthink/erthink_bswap.h"
#include "fast_positive/erthink/erthink_carryadd.h"
#include "fast_positive/erthink/erthink_clz.h"
#include "fast_positive/erthink/erthink_endian.h"
#include "fast_positive/erthink/erthink_misc.h"
#include "fast_positive/erthink/erthink_mul.h"
#include "fast_positive/erthink/erthink_short_alloc.h"
#include "fast_positive/tuples/1Hippeus/hipagut_allocator.h"
template <typename T> static T any(const char *name) { return T(vp_u(name, 0, sizeof(T) == 8 ? UINT64_MAX : (UINT64_C(1) << (sizeof(T) * 8 % 64)) - 1)); }
template <typename U, typename S> static void order() {
  const U v = any<U>("v");
  U r = 0;
  for (unsigned i = 0; i < sizeof(U); ++i)
    r = U(r | U((v >> 8 * i) & 255) << 8 * (sizeof(U) - 1 - i));
  vp_assert(erthink::bswap<U>(v) == r && erthink::bswap<S>(S(v)) == S(r), "bytes in reverse");
  vp_assert(erthink::h2be<U>(v) == r && erthink::be2h<U>(v) == r && erthink::h2be<S>(S(v)) == S(r) && erthink::be2h<S>(S(v)) == S(r), "big endian");
  vp_assert(erthink::h2le<U>(v) == v && erthink::le2h<U>(v) == v && erthink::h2le<S>(S(v)) == S(v) && erthink::le2h<S>(S(v)) == S(v), "little endian");
  uint8_t m[sizeof(U)];
  const U be = erthink::h2be<U>(v), le = erthink::h2le<U>(v);
  memcpy(m, &be, sizeof(U));
  for (unsigned i = 0; i < sizeof(U); ++i)
    vp_assert(m[i] == uint8_t(v >> 8 * (sizeof(U) - 1 - i)), "most significant byte first");
  memcpy(m, &le, sizeof(U));
  for (unsigned i = 0; i < sizeof(U); ++i)
    vp_assert(m[i] == uint8_t(v >> 8 * i), "least significant byte first");
}
VP_OBLIGATION(ob_order_8) { order<uint8_t, int8_t>(); }
VP_OBLIGATION(ob_order_16) { order<uint16_t, int16_t>(); }
VP_OBLIGATION(ob_order_32) { order<uint32_t, int32_t>(); }
VP_OBLIGATION(ob_order_64) { order<uint64_t, int64_t>(); }
/* a carry comes out exactly if the sum does not fit */
VP_OBLIGATION(ob_carry) {
  static const uint64_t as[] = {0, 1, 2, 0x7fffffff, 0x80000000, 0xffffffff, 0x100000000, 0x7fffffffffffffff, 0x8000000000000000, 0xfffffffffffffffe, 0xffffffffffffffff};
  const uint64_t a = as[vp_enum("a", 0, 10)], b = vp_u("b", 0, UINT64_MAX);
  const unsigned c = unsigned(vp_enum("carry", 0, 1));
  const bool swapped = vp_enum("swapped", 0, 1) != 0;
  const uint64_t x = swapped ? b : a, y = swapped ? a : b;
  const uint64_t cut = 0 - a; /* a + b wraps exactly from here on */
  const uint64_t cuts[] = {0, 1, cut - 2, cut - 1, cut, cut + 1, UINT64_MAX - 1, UINT64_MAX};
  vp_cells_u(b, cuts, 8);
  const bool over0 = a && b >= cut, over1 = a == UINT64_MAX ? true : a + 1 != 0 && b >= 0 - (a + 1) && (a + 1) != 0;
  uint64_t s = 77;
  const unsigned out0 = erthink::add64carry_first(x, y, &s);
  vp_assert(s == a + b && (out0 != 0) == over0 && out0 <= 1, "first");
  const unsigned out = erthink::add64carry_next(c, x, y, &s);
  vp_assert(s == a + b + c && (out != 0) == (c ? over1 : over0) && out <= 1, "next");
  s = 77;
  erthink::add64carry_last(c, x, y, &s);
  vp_assert(s == a + b + c, "last");
}
VP_OBLIGATION(ob_product) {
  const unsigned k = unsigned(vp_enum("power", 0, 63));
  const uint64_t a = vp_u("a", 0, UINT64_MAX);
  uint64_t h = 77;
  const uint64_t l = erthink::mul_64x64_128(a, UINT64_C(1) << k, &h);
  vp_assert(l == a << k && h == (k ? a >> (64 - k) : 0), "a product of 128 bits by a power of two");
  uint64_t h2 = 77;
  const uint64_t l2 = erthink::mul_64x64_128(UINT64_C(1) << k, a, &h2);
  vp_assert(l2 == l && h2 == h, "a product does not depend on the order");
  const uint32_t b = uint32_t(a);
  if (k < 32)
    vp_assert(erthink::mul_32x32_64(b, UINT32_C(1) << k) == uint64_t(b) << k && erthink::mul_32x32_64(UINT32_C(1) << k, b) == uint64_t(b) << k, "a product of 64 bits by a power of two");
}
VP_OBLIGATION(ob_product_any) {
  /* (2^32 x + y)(2^32 u + v) with small parts at the boundaries */
  static const uint64_t p[] = {0, 1, 2, 0x7fffffff, 0x80000000, 0xfffffffe, 0xffffffff};
  const uint64_t x = p[vp_enum("x", 0, 6)], y = p[vp_enum("y", 0, 6)], u = p[vp_enum("u", 0, 6)], v = p[vp_enum("v", 0, 6)];
  uint64_t h = 77;
  const uint64_t l = erthink::mul_64x64_128(x << 32 | y, u << 32 | v, &h);
  /* by schoolbook in parts of 32 bits */
  const uint64_t ll = y * v, m1 = x * v + (ll >> 32), m2 = y * u + (m1 & 0xffffffff);
  vp_assert(l == (m2 << 32 | (ll & 0xffffffff)) && h == x * u + (m1 >> 32) + (m2 >> 32), "a product of 128 bits");
}
VP_OBLIGATION(ob_leading_zeros) {
  const int n = int(vp_enum("zeros", 0, 63));
  const uint64_t top = UINT64_C(1) << (63 - n), v = vp_u("v", 0, UINT64_MAX);
  vp_assume(v >= top && v - top < top);
  vp_assert(erthink::clz64(v) == n && erthink::clz(v) == n, "zeros before the highest one");
  vp_assert(erthink::msb(v) == (n == 0), "the highest bit");
  if (n >= 32) {
    vp_assert(erthink::clz32(uint32_t(v)) == n - 32 && erthink::clz(uint32_t(v)) == n - 32, "zeros before the highest one");
    vp_assert(erthink::msb(uint32_t(v)) == (n == 32), "the highest bit");
  }
}
VP_OBLIGATION(ob_leading_zeros_portable) {
  /* all ones below the top are filled in first, so the top decides */
  const int n = int(vp_enum("zeros", 0, 63)), fill = int(vp_enum("below", 0, 3));
  const uint64_t top = UINT64_C(1) << (63 - n), v = top | (fill == 0 ? 0 : fill == 1 ? top - 1 : fill == 2 ? (top - 1) & 0x5555555555555555 : (top - 1) & 0x8421084210842108);
  vp_assert(erthink::fallback_clz64(v) == n, "zeros before the highest one");
  if (n >= 32)
    vp_assert(erthink::fallback_clz32(uint32_t(v)) == n - 32, "zeros before the highest one");
}
template <typename S, typename U> static void absolute() {
  const S v = S(vp_i("v", std::numeric_limits<S>::min(), std::numeric_limits<S>::max()));
  if (v >= 0) {
    const erthink::branchless_abs<S> a(v);
    vp_assert(a.expanded_sign == 0 && a.unsigned_abs == U(v), "of a non-negative number");
  } else {
    const erthink::branchless_abs<S> a(v);
    vp_assert(a.expanded_sign == -1 && a.unsigned_abs == U(U(0) - U(v)), "of a negative number");
  }
}
VP_OBLIGATION(ob_abs_8) { absolute<int8_t, uint8_t>(); }
VP_OBLIGATION(ob_abs_16) { absolute<int16_t, uint16_t>(); }
VP_OBLIGATION(ob_abs_32) { absolute<int32_t, uint32_t>(); }
VP_OBLIGATION(ob_abs_64) { absolute<int64_t, uint64_t>(); }
/* the arena: pieces are aligned, disjoint, inside; what does not fit comes from the heap or is refused */
template <bool OUTLIVE> static void arena() {
  typedef erthink::allocation_arena<OUTLIVE, 128, 16> A;
  const uint64_t heap = vp_heap();
  {
    A a;
    vp_assert(a.used() == 0, "a fresh arena is empty");
    static const size_t sizes[] = {1, 16, 17, 48, 64, 112, 128, 129};
    char *p[3];
    size_t n[3], used = 0;
    bool in[3];
    for (int i = 0; i < 3; ++i) {
      n[i] = sizes[vp_enum("bytes", 0, 7)];
      p[i] = nullptr;
      in[i] = false;
      const size_t need = (n[i] + 15) / 16 * 16;
      const bool fits = used + need <= 128;
      bool refused = false;
      try {
        p[i] = a.template allocate<8>(n[i]);
      } catch (const std::bad_alloc &) {
        refused = true;
      }
      if (fits) {
        vp_assert(!refused && p[i] == a.buf_ + used, "a piece of the arena");
        used += need;
        in[i] = true;
      } else
        vp_assert(refused == !OUTLIVE && (refused || !a.pointer_in_bounds(p[i])), "does not fit");
      vp_assert(a.used() == used, "account of the arena");
      if (p[i]) {
        vp_assert(a.pointer_in_bounds(p[i]) == in[i] && a.chunk_in_bounds(p[i], n[i]) == in[i], "bounds");
        p[i][0] = char(i + 1);
        p[i][n[i] - 1] = char(i + 1);
      }
    }
    for (int i = 0; i < 3; ++i)
      if (p[i])
        vp_assert(p[i][0] == i + 1 && p[i][n[i] - 1] == i + 1, "pieces are disjoint");
    /* released in reverse everything comes back, forward only the last one */
    if (vp_enum("reverse", 0, 1)) {
      for (int i = 3; i-- > 0;)
        if (p[i])
          a.deallocate(p[i], n[i]);
      vp_assert(a.used() == 0, "all given back");
    } else {
      for (int i = 0; i < 3; ++i)
        if (p[i])
          a.deallocate(p[i], n[i]);
      a.reset();
      vp_assert(a.used() == 0, "reset");
    }
  }
  vp_assert(vp_heap() == heap, "nothing is left behind");
}
VP_OBLIGATION(ob_arena_strict) { arena<false>(); }
VP_OBLIGATION(ob_arena_outlive) { arena<true>(); }
VP_OBLIGATION(ob_arena_any) {
  typedef erthink::allocation_arena<false, 256, 16> A;
  A a;
  const size_t n = vp_u("bytes", 0, UINT64_MAX), m = vp_u("more", 0, UINT64_MAX);
  static const uint64_t cuts[] = {0, 16, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, UINT64_MAX - 15};
  vp_cells_u(n, cuts, 18);
  vp_cells_u(m, cuts, 18);
  char *p = nullptr, *q = nullptr;
  try {
    p = a.allocate<16>(n);
    q = a.allocate<16>(m);
  } catch (const erthink::allocation_arena_exhausted &) {
  }
  vp_assert((p != nullptr) == (n <= 256), "fits or is refused");
  if (p)
    vp_assert(p == a.buf_, "the first piece");
  if (q) {
    const size_t at = size_t(q - a.buf_);
    vp_assert(at >= n && at % 16 == 0, "apart");
    vp_assert(at <= 256 && m <= 256 - at, "inside");
  }
}
VP_OBLIGATION(ob_short_alloc) {
  typedef erthink::allocation_arena<true, 64, 16> A;
  const uint64_t heap = vp_heap();
  {
    A a, b;
    erthink::short_alloc<uint32_t, A> x(a), y(x), z(b);
    erthink::short_alloc<uint64_t, A> w(x);
    vp_assert(x == y && !(x == z) && x == w && !(w == z), "allocators are equal if they share an arena");
    std::vector<uint32_t, erthink::short_alloc<uint32_t, A>> v(x);
    const int n = int(vp_enum("elements", 0, 20));
    for (int i = 0; i < n; ++i)
      v.push_back(uint32_t(i * 7 + 1));
    for (int i = 0; i < n; ++i)
      vp_assert(v[size_t(i)] == uint32_t(i * 7 + 1), "elements of a vector in an arena");
    vp_assert(v.size() == size_t(n), "elements of a vector in an arena");
  }
  vp_assert(vp_heap() == heap, "nothing is left behind");
}
/* the guarded allocator: room for all elements, overruns are noticed on release */
template <typename T> static void guarded() {
  hippeus::hipagut_std_allocator<T> a;
  const size_t n = size_t(vp_enum("elements", 1, 12));
  const uint64_t heap = vp_heap();
  T *const p = a.allocate(n);
  for (size_t i = 0; i < n; ++i)
    p[i] = T(i + 1);
  for (size_t i = 0; i < n; ++i)
    vp_assert(p[i] == T(i + 1), "room for all elements");
  uint8_t *const b = reinterpret_cast<uint8_t *>(p);
  const int damage = int(vp_enum("damage", 0, 2));
  const uint8_t with = vp_enum("with ones", 0, 1) ? 0xFF : 0;
  const uint64_t before = damage == 1 ? 8 : 0;
  bool noticed = false;
  if (damage)
    for (size_t i = 0; i < 8; ++i)
      b[damage == 1 ? ptrdiff_t(i) - ptrdiff_t(before) : ptrdiff_t(n * sizeof(T) + i)] = with;
  try {
    a.deallocate(p, n);
  } catch (const fptu::bug &) {
    noticed = true;
  }
  vp_assert(noticed == (damage != 0), "an overrun is noticed");
  vp_assert(damage || vp_heap() == heap, "released");
  vp_assert(a.allocate(0) == nullptr, "nothing for no elements");
}
VP_OBLIGATION(ob_guarded_1) { guarded<uint8_t>(); }
VP_OBLIGATION(ob_guarded_2) { guarded<uint16_t>(); }
VP_OBLIGATION(ob_guarded_4) { guarded<uint32_t>(); }
VP_OBLIGATION(ob_guarded_8) { guarded<uint64_t>(); }
