/* Points in time: 32.32 fixed point, conversions, order, the current time with the asked precision. */
#include "io.h"
#include <time.h>
#include <sys/time.h>
typedef datetime_t dt;
/* the fraction of a second, rounded down to 1/2^32 */
static uint64_t fraction(uint64_t units, uint64_t per_second) { return (units << 32) / per_second; }
static void is(const dt &t, uint64_t sec, uint64_t frac) {
  vp_assert(t.utc_seconds() == sec, "whole seconds are exact");
  vp_assert(t.fractional() == frac, "the fraction is rounded down to 1/2^32 of a second");
  vp_assert(t.fixedpoint_32dot32() == (uint64_t(t.utc_seconds()) << 32 | t.fractional()), "seconds above, fraction below");
}
static uint64_t sub(uint64_t per) {
  const uint64_t u = vp_u("units", 0, per - 1);
  const uint64_t pts[] = {0, 1, per / 4, per / 2 - 1, per / 2, per - 2, per - 1};
  vp_cells_u(u, pts, 7);
  return u;
}
static uint64_t secs() {
  const uint64_t s = vp_u("seconds", 0, UINT32_MAX);
  VP_CELLS_U(s, 0, 1, 0x7fffffff, 0x80000000, 0xffffffff);
  return s;
}
#define X(NAME, PER, CALL) VP_OBLIGATION(ob_from_##NAME) { const uint64_t u = sub(PER); const uint64_t s = vp_enum("at", 0, 4) == 0 ? 0 : vp_enum("second", 0, 1) ? 0xffffffffu : 0x80000001u; is(dt::from_##CALL(s * PER + u), s, fraction(u, PER)); }
X(ms, 1000ull, milliseconds)
X(us, 1000000ull, usec)
X(ns, 1000000000ull, nsec)
X(ns100, 10000000ull, 100ns)
#undef X
VP_OBLIGATION(ob_from_units) {
  static const uint32_t per[] = {1, 2, 3, 7, 1000, 0x10000, 0x7fffffff, 0xffffffff};
  const uint64_t p = per[vp_enum("per second", 0, 7)], s = secs();
  is(dt(s * p, uint32_t(p)), s, 0);
  const uint64_t last = p - 1;
  is(dt(s * p + last, uint32_t(p)), s, fraction(last, p));
}
VP_OBLIGATION(ob_from_whole) {
  const uint64_t s = secs();
  is(dt::from_seconds(unsigned(s)), s, 0);
  const time_t t = time_t(s);
  is(dt(&t), s, 0);
  struct timespec ts;
  ts.tv_sec = time_t(s);
  ts.tv_nsec = long(sub(1000000000));
  is(dt(ts), s, fraction(uint64_t(ts.tv_nsec), 1000000000));
  is(dt::from_timespec(ts), s, fraction(uint64_t(ts.tv_nsec), 1000000000));
  struct timeval tv;
  tv.tv_sec = time_t(s);
  tv.tv_usec = long(sub(1000000));
  is(dt(tv), s, fraction(uint64_t(tv.tv_usec), 1000000));
  is(dt::from_timeval(tv), s, fraction(uint64_t(tv.tv_usec), 1000000));
}
VP_OBLIGATION(ob_fraction_to_units) {
  const uint64_t f = vp_u("fraction", 0, UINT32_MAX);
  VP_CELLS_U(f, 0, 1, 4, 5, 4294, 4295, 4294967, 4294968, 0x7fffffff, 0x80000000, 0xfffffffe, 0xffffffff);
  vp_assert(dt::fractional2ms(uint32_t(f)) == f * 1000 >> 32, "milliseconds rounded down");
  vp_assert(dt::fractional2us(uint32_t(f)) == f * 1000000 >> 32, "microseconds rounded down");
  vp_assert(dt::fractional2ns(uint32_t(f)) == f * 1000000000 >> 32, "nanoseconds rounded down");
  vp_assert(dt::fractional2ms(uint32_t(f)) < 1000 && dt::fractional2us(uint32_t(f)) < 1000000 && dt::fractional2ns(uint32_t(f)) < 1000000000, "less than a second");
}
VP_OBLIGATION(ob_units_to_fraction) {
  const uint64_t n = sub(1000000000), u = sub(1000000), m = sub(1000);
  vp_assert(dt::ns2fractional(uint32_t(n)) == fraction(n, 1000000000), "nanoseconds");
  vp_assert(dt::us2fractional(uint32_t(u)) == fraction(u, 1000000), "microseconds");
  vp_assert(dt::ms2fractional(uint32_t(m)) == fraction(m, 1000), "milliseconds");
}
static uint64_t any64(const char *name) {
  const uint64_t v = vp_u(name, 0, UINT64_MAX);
  VP_CELLS_U(v, 0, 1, 0xffffffff, 0x100000000, 0x7fffffffffffffff, 0x8000000000000000, UINT64_MAX);
  return v;
}
VP_OBLIGATION(ob_order) {
  const uint64_t a = any64("a"), b = any64("b");
  const dt x = dt::from_fixedpoint_32dot32(a), y = dt::from_fixedpoint_32dot32(b);
  vp_assert(x.fixedpoint_32dot32() == a && x.utc_seconds() == a >> 32 && x.fractional() == uint32_t(a), "parts");
  vp_assert((x == y) == (a == b) && (x != y) == (a != b), "equality is that of the moments");
  vp_assert((x < y) == (a < b) && (x > y) == (a > b) && (x <= y) == (a <= b) && (x >= y) == (a >= b), "order is that of the moments");
  dt z;
  z = x;
  vp_assert(z == x, "a copy is equal");
  fptu_datetime_C c = x;
  vp_assert(dt(c) == x && c.fixedpoint == a && c.utc == a >> 32 && c.fractional == uint32_t(a), "the C form");
  z = static_cast<const fptu_datetime_C &>(y);
  vp_assert(z == y, "the C form");
}
/* the clock: CLOCK_REALTIME and, if the system has it, the coarse one */
static void clocks(bool coarse, uint64_t resolution, uint64_t s1, uint64_t n1, uint64_t s2, uint64_t n2) {
  vp_clock(CLOCK_REALTIME, s1, n1, 1);
  if (coarse)
    vp_clock(CLOCK_REALTIME_COARSE, s2, n2, resolution);
  for (int n = 0; n < 4; ++n)
    vp_ctor("time.cxx", n); /* what runs when the library is loaded */
}
VP_OBLIGATION(ob_now) {
  const bool present = vp_enum("has coarse clock", 0, 1) != 0;
  static const uint64_t res[] = {1, 1000, 1000000, 4000000, 10000000, 1000000000, 1000000001};
  const uint64_t resolution = res[vp_enum("resolution", 0, 6)];
  const uint64_t s1 = vp_u("seconds", 0, UINT32_MAX), n1 = vp_u("nanoseconds", 0, 999999999), s2 = vp_u("seconds coarse", 0, UINT32_MAX), n2 = vp_u("nanoseconds coarse", 0, 999999999);
  clocks(present, resolution, s1, n1, s2, n2);
  const bool coarse = present && resolution < 1000000000; /* coarser than a second is not used */
  is(dt(fptu_now_fine()), s1, fraction(n1, 1000000000));
  is(dt(fptu_now_coarse()), coarse ? s2 : s1, fraction(coarse ? n2 : n1, 1000000000));
  /* positive: nanoseconds; the coarse clock only if it is precise enough */
  static const int grains[] = {0, 1, 999, 1000, 999999, 1000000, 3999999, 4000000, 10000000, 1000000000, 0x7fffffff};
  const int grain = grains[vp_enum("grain", 0, 10)];
  const bool use = coarse && uint64_t(grain) >= resolution;
  is(dt(fptu_now(grain)), use ? s2 : s1, fraction(use ? n2 : n1, 1000000000));
  is(dt::now(grain), use ? s2 : s1, fraction(use ? n2 : n1, 1000000000));
}
VP_OBLIGATION(ob_now_bits) {
  const bool coarse = vp_enum("has coarse clock", 0, 1) != 0;
  const uint64_t s = vp_u("seconds", 0, UINT32_MAX), n = vp_u("nanoseconds", 0, 999999999);
  clocks(coarse, 4000000, s, n, s, n);
  const int bits = int(vp_enum("bits", 1, 40));
  const dt t(fptu_now(-bits));
  vp_assert(t.utc_seconds() == s, "whole seconds are exact");
  vp_assert(t.fractional() == (bits < 32 ? fraction(n, 1000000000) >> bits << bits : 0), "exactly the low bits not wanted are zero");
  const dt d = dt::now();
  vp_assert(d.utc_seconds() == s && d.fractional() == fraction(n, 1000000000) >> 16 << 16, "by default the low sixteen bits are zero");
}
/* in fields: the wide one keeps everything, the narrow one whole seconds */
VP_OBLIGATION(ob_field) {
  const int place = int(vp_enum("place", 0, 1));
  const bool wide = vp_enum("wide", 0, 1) != 0;
  fixture f = vp_make(place, wide ? t64 : t32, false);
  const uint64_t v = vp_u("moment", 0, UINT64_MAX);
  VP_CELLS_U(v, 0, 1, 0xffffffff, 0x100000000, 0x7fffffffffffffff, 0x8000000000000000, UINT64_MAX);
  f.t->set_datetime(f.k, dt::from_fixedpoint_32dot32(v));
  vp_assert(f.t->get_datetime(f.k).fixedpoint_32dot32() == (wide ? v : v >> 32 << 32), "a moment reads back, to the precision of the field");
  vp_assert(f.t->take_asis()->get_datetime(f.k).fixedpoint_32dot32() == (wide ? v : v >> 32 << 32), "a moment reads back, to the precision of the field");
  vp_neighbours(f, f.t);
}
