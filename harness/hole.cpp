/* a released piece of any size is remembered as such */
#include "common.h"
VP_OBLIGATION(ob_hole_size) {
  const uint64_t n = vp_u("units", 1, 65000);
  VP_CELLS_U(n, 2047, 2048);
  uint32_t raw = 0;
  field_loose *f = reinterpret_cast<field_loose *>(&raw);
  f->hole_set_units(n);
  vp_assert(f->is_hole() && f->hole_get_units() == n, "a released piece of any size is remembered as such");
}
