/* The same sums and products in the form that compilers without the newer builtins (gcc 13 among them) and without 128-bit integers get. */
#include <algorithm>
#include <array>
#include <atomic>
#include <bitset>
#include <chrono>
#include <functional>
#include <limits>
#include <memory>
#include <mutex>
#include <stdexcept>
#include <string>
#include <unordered_map>
#include <vector>
#include <immintrin.h>
#include "fast_positive/erthink/erthink_bswap.h"
#undef __has_builtin
#define __has_builtin(x) 0
#undef __SIZEOF_INT128__
#include "fast_positive/erthink/erthink_carryadd.h"
#include "fast_positive/erthink/erthink_mul.h"
#include "vp.h"
/* a carry comes out exactly if the sum does not fit */
VP_OBLIGATION(ob_plain_carry) {
  static const uint64_t as[] = {0, 1, 2, 0x7fffffff, 0x80000000, 0xffffffff, 0x100000000, 0x7fffffffffffffff, 0x8000000000000000, 0xfffffffffffffffe, 0xffffffffffffffff};
  const uint64_t a = as[vp_enum("a", 0, 10)], b = as[vp_enum("b", 0, 10)] + vp_enum("off", 0, 4) - 2;
  const unsigned c = unsigned(vp_enum("carry", 0, 1));
  const bool swapped = vp_enum("swapped", 0, 1) != 0;
  const uint64_t x = swapped ? b : a, y = swapped ? a : b;
  const uint64_t cut = 0 - a; /* a + b wraps exactly from here on */
  const bool over0 = a && b >= cut, over1 = a == UINT64_MAX ? true : a + 1 != 0 && b >= 0 - (a + 1) && (a + 1) != 0;
  uint64_t s = 77;
  const unsigned out0 = erthink::add64carry_first(x, y, &s);
  vp_assert(s == a + b && (out0 != 0) == over0 && out0 <= 1, "first");
  const unsigned out = erthink::add64carry_next(c, x, y, &s);
  vp_assert(s == a + b + c && (out != 0) == (c ? over1 : over0) && out <= 1, "next");
  s = 77;
  erthink::add64carry_last(c, x, y, &s);
  vp_assert(s == a + b + c, "last");
}
VP_OBLIGATION(ob_plain_product) {
  const unsigned k = unsigned(vp_enum("power", 0, 63));
  static const uint64_t parts[] = {0, 1, 0x7fffffff, 0x80000000, 0xfffffffe, 0xffffffff};
  const uint64_t a = parts[vp_enum("high", 0, 5)] << 32 | parts[vp_enum("low", 0, 5)];
  uint64_t h = 77;
  const uint64_t l = erthink::mul_64x64_128(a, UINT64_C(1) << k, &h);
  vp_assert(l == a << k && h == (k ? a >> (64 - k) : 0), "a product of 128 bits by a power of two");
  uint64_t h2 = 77;
  const uint64_t l2 = erthink::mul_64x64_128(UINT64_C(1) << k, a, &h2);
  vp_assert(l2 == l && h2 == h, "a product does not depend on the order");
  const uint32_t b = uint32_t(a);
  if (k < 32)
    vp_assert(erthink::mul_32x32_64(b, UINT32_C(1) << k) == uint64_t(b) << k && erthink::mul_32x32_64(UINT32_C(1) << k, b) == uint64_t(b) << k, "a product of 64 bits by a power of two");
}
VP_OBLIGATION(ob_plain_product_any) {
  /* (2^32 x + y)(2^32 u + v) with small parts at the boundaries */
  static const uint64_t p[] = {0, 1, 2, 0x7fffffff, 0x80000000, 0xfffffffe, 0xffffffff};
  const uint64_t x = p[vp_enum("x", 0, 6)], y = p[vp_enum("y", 0, 6)], u = p[vp_enum("u", 0, 6)], v = p[vp_enum("v", 0, 6)];
  uint64_t h = 77;
  const uint64_t l = erthink::mul_64x64_128(x << 32 | y, u << 32 | v, &h);
  /* by schoolbook in parts of 32 bits */
  const uint64_t ll = y * v, m1 = x * v + (ll >> 32), m2 = y * u + (m1 & 0xffffffff);
  vp_assert(l == (m2 << 32 | (ll & 0xffffffff)) && h == x * u + (m1 >> 32) + (m2 >> 32), "a product of 128 bits");
}
