/* Identifiers made at compile time for members of a structure, and the structure laid over the fixed-offset part of a tuple. */
#pragma once
#include "fixture.h"

#pragma pack(push, 1)
enum small_enum : short { A_VALUE = 3 };
struct record {
  bool flag;
  int8_t s8;
  uint8_t n8;
  int16_t s16;
  uint16_t n16;
  small_enum e;
  int32_t s32;
  uint32_t n32;
  float r32;
  int64_t s64;
  uint64_t n64;
  double r64;
  datetime_t when;
  decimal64 dec;
  mac_address_t hw;
  ip_address_t addr;
  uuid_t id;
  binary96_t b96;
  binary160_t b160;
  binary192_t b192;
  binary224_t b224;
  binary256_t b256;
  binary320_t b320;
  binary384_t b384;
  binary512_t b512;
  preplaced_string str;
  preplaced_varbin bin;
  preplaced_nested nst;
  preplaced_property prp;
};
struct stretch {
  uint32_t head;
  /* a schema gives a variable-length field a whole unit, of which the member is the first half */
  preplaced_string str;
  uint16_t pad1;
  preplaced_varbin bin;
  uint16_t pad2;
  preplaced_nested nst;
  uint16_t pad3;
  preplaced_property prp;
  uint16_t pad4;
  uint32_t tail;
};
struct numbers {
  uint32_t head;
  bool flag;
  int8_t s8;
  uint8_t n8;
  int16_t s16;
  uint16_t n16;
  int32_t s32;
  uint32_t n32;
  int64_t s64;
  uint64_t n64;
  uint32_t tail;
};
#pragma pack(pop)

static schema *make(const genus *g, size_t n) {
  static const char *const names[] = {"aa", "bb", "cc", "dd", "ee", "ff", "gg", "hh", "ii", "jj", "kk"};
  schema *s = schema::create().release();
  for (size_t i = 0; i < n; ++i)
    s->define_preplaced(std::string(names[i]), g[i], false, false, nullptr);
  return s;
}
