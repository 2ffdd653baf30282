// P12: the search through the index. Every kernel finds the first entry with the wanted
// type and identifier or nothing, whatever the entries are, and touches only the memory
// pages that hold the index.
#include "common.h"
#include "fast_positive/tuples/details/cpu_features.h"
#include "fast_positive/tuples/details/scan.h"

using namespace fptu::details;
typedef const field_loose *kernel(const field_loose *, const field_loose *, const uint16_t);

static inline __attribute__((always_inline)) uint32_t *place(size_t n, size_t offset) {
  // an object that consists of exactly the pages that hold the entries
  const size_t pages = n ? (offset + n * 4 + 4095) / 4096 : 1;
  char *p = static_cast<char *>(vp_alloc(pages * 4096, 0, "pages"));
  return reinterpret_cast<uint32_t *>(p + offset);
}

// the index has n entries, the first with the wanted tag is at the place `hit` (n: none)
static inline __attribute__((always_inline)) void look(kernel *f, size_t n, size_t offset, size_t hit) {
  uint32_t *at = place(n, offset);
  const uint16_t tag = uint16_t(vp_u("tag", 0, 0xffff));
  for (size_t i = 0; i <= hit && i < n; ++i) {
    const uint32_t low = uint32_t(vp_u("offset", 0, 0xffff));
    uint16_t high = tag;
    if (i < hit) {
      high = uint16_t(vp_u("other", 0, 0xffff));
      vp_assume(high != tag);
    }
    at[i] = low | uint32_t(high) << 16;
  }
  const field_loose *begin = reinterpret_cast<const field_loose *>(at);
  const field_loose *r = f(begin, begin + n, tag);
  if (hit < n)
    vp_assert(r == begin + hit, "the first matching entry is found");
  else
    vp_assert(r == nullptr, "nothing is found among other entries");
}

static inline __attribute__((always_inline)) void small(kernel *f, size_t upto) {
  const size_t n = size_t(vp_enum("entries", 0, int64_t(upto)));
  const size_t hit = size_t(vp_enum("first match", 0, int64_t(n)));
  look(f, n, vp_enum("page start", 0, 1) ? 0 : 512, hit);
}
// near a page boundary
static inline __attribute__((always_inline)) void edge(kernel *f, size_t upto) {
  const size_t n = size_t(vp_enum("entries", 1, int64_t(upto)));
  const unsigned where = unsigned(vp_enum("match", 0, 2));
  const size_t shift = size_t(vp_enum("distance to the boundary", 0, 10)) * 4;
  const size_t offset = vp_enum("end", 0, 1) ? (8192 - n * 4 - shift) % 4096 : shift;
  look(f, n, offset, where == 0 ? n : where == 1 ? 0 : n - 1);
}
static inline __attribute__((always_inline)) void large(kernel *f, const size_t *sizes, size_t count) {
  const size_t n = sizes[vp_enum("size", 0, int64_t(count) - 1)];
  const size_t step = size_t(vp_enum("from the end", 0, 40));
  const size_t hit = step < 20 ? n - step : (step - 20) * (n / 20);
  look(f, n, 4096 - (n * 4) % 4096, hit);
}
static inline __attribute__((always_inline)) void medium(kernel *f, size_t from, size_t upto) {
  const size_t n = size_t(vp_enum("entries", int64_t(from), int64_t(upto)));
  static const int places[] = {0, -1, -2, -8, 17, 32};
  const int k = places[vp_enum("place", 0, 5)];
  look(f, n, 4096 - (n * 4) % 4096, k < 0 ? n + 1 - size_t(-k) : size_t(k));
}
static inline __attribute__((always_inline)) void hollow(kernel *f) {
  char *p = static_cast<char *>(vp_alloc(4096, 0, "page"));
  const field_loose *at = reinterpret_cast<const field_loose *>(p + 1024);
  vp_assert(f(at, at - vp_enum("reversed by", 0, 3), uint16_t(vp_u("tag", 0, 0xffff))) == nullptr, "nothing in an empty index");
}
static const size_t deep_sizes[] = {23, 25, 28, 30, 34, 35, 39, 40, 47, 48, 49, 56, 60, 61, 62, 66, 67, 68, 72, 95, 96, 97, 120, 127, 128, 129, 130, 135, 136, 160, 192, 193, 256, 257};

#define KERNEL(NAME)                                                           \
  VP_OBLIGATION(ob_small_##NAME) { small(fptu_scan_##NAME, 32); }              \
  VP_OBLIGATION(ob_edge_##NAME) { edge(fptu_scan_##NAME, 12); }                \
  VP_OBLIGATION(ob_medium_##NAME) { medium(fptu_scan_##NAME, 33, 72); }        \
  VP_OBLIGATION(ob_medium2_##NAME) { medium(fptu_scan_##NAME, 125, 140); }     \
  VP_OBLIGATION(ob_deep_large_##NAME) { large(fptu_scan_##NAME, deep_sizes, sizeof(deep_sizes) / sizeof(deep_sizes[0])); } \
  VP_OBLIGATION(ob_hollow_##NAME) { hollow(fptu_scan_##NAME); }
KERNEL(referential)
KERNEL(unroll)
KERNEL(SSE2)
KERNEL(AVX)
KERNEL(AVX2)

// the kernel that was chosen is one the processor is able to run
extern "C" kernel *fptu_scan_resolver();
VP_OBLIGATION(ob_resolver) {
  fptu::ia32_cpu_features &cpu = const_cast<fptu::ia32_cpu_features &>(fptu::cpu_features);
  vp_bytes(&cpu, sizeof(cpu), "cpu");
  const bool avx2 = vp_enum("AVX2", 0, 1) != 0, avx = vp_enum("AVX", 0, 1) != 0, sse2 = vp_enum("SSE2", 0, 1) != 0;
  cpu.extended_7.ebx = (uint32_t(vp_u("ebx", 0, 0xffffffff)) & ~(1u << 5)) | uint32_t(avx2) << 5;
  cpu.basic.ecx = (uint32_t(vp_u("ecx", 0, 0xffffffff)) & ~(1u << 28)) | uint32_t(avx) << 28;
  cpu.basic.edx = (uint32_t(vp_u("edx", 0, 0xffffffff)) & ~(1u << 26)) | uint32_t(sse2) << 26;
  kernel *const f = fptu_scan_resolver();
  vp_assert(f != nullptr, "some kernel is chosen");
  vp_assert(f != fptu_scan_AVX2 || avx2, "an AVX2 kernel only where there is AVX2");
  vp_assert(f != fptu_scan_AVX || avx || avx2, "an AVX kernel only where there is AVX");
  vp_assert(f != fptu_scan_SSE2 || sse2 || avx || avx2, "an SSE2 kernel only where there is SSE2");
}

// what the rest of the library calls
VP_OBLIGATION(ob_lookup) {
  const size_t n = size_t(vp_enum("entries", 0, 9)), hit = size_t(vp_enum("first match", 0, int64_t(n)));
  uint32_t *at = place(n, 1024);
  const unsigned type = unsigned(vp_u("type", 0, 30)), id = unsigned(vp_u("id", 0, 2047));
  const uint32_t tag = 0xfff80000u | type << 11 | id | (vp_enum("flags", 0, 7) << 16);
  for (size_t i = 0; i <= hit && i < n; ++i) {
    const uint32_t low = uint32_t(vp_u("offset", 0, 0xffff));
    uint16_t high = uint16_t(tag);
    if (i < hit) {
      high = uint16_t(vp_u("other", 0, 0xffff));
      vp_assume(high != uint16_t(tag));
    }
    at[i] = low | uint32_t(high) << 16;
  }
  const field_loose *begin = reinterpret_cast<const field_loose *>(at), *end = begin + n;
  const bool sorted = vp_enum("sorted", 0, 1) != 0;
  const field_loose *r = lookup(sorted, begin, end, tag);
  vp_assert(r == (hit < n ? begin + hit : nullptr), "the first field with this type and identifier");
  const size_t from = size_t(vp_enum("from", 0, 9));
  vp_assume(from < n && from < hit);
  r = next(begin + from, end, tag);
  vp_assert(r == (hit < n ? begin + hit : nullptr), "the next field with this type and identifier");
}
VP_OBLIGATION(ob_next_null) {
  const field_loose *none = nullptr;
  vp_assert(next(none, none, 0xfff80000u | uint32_t(vp_u("id", 0, 2047))) == nullptr, "nothing comes after nothing");
}
