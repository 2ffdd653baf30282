/* Vocabulary of the abstract interpreter (never linked, never executed). */
#pragma once
#include <stddef.h>
#include <stdint.h>
extern "C" {
/* arbitrary integer in [lo,hi] */
uint64_t vp_u(const char *name, uint64_t lo, uint64_t hi);
int64_t vp_i(const char *name, int64_t lo, int64_t hi);
/* arbitrary double / float in [lo,hi], never NaN */
double vp_f(const char *name, double lo, double hi);
float vp_f32(const char *name, float lo, float hi);
/* one trace per value */
int64_t vp_enum(const char *name, int64_t lo, int64_t hi);
/* partition the current traces on x: one cell per point, one per gap */
void vp_cells_u(uint64_t x, const uint64_t *pts, size_t n);
void vp_cells_i(int64_t x, const int64_t *pts, size_t n);
void vp_fcells(double x, const double *pts, size_t n);
void vp_bytes(void *p, size_t n, const char *name);
void *vp_alloc(size_t size, size_t misalign, const char *name);
void vp_assume(bool);
void vp_assert(bool, const char *what);
void vp_fail(const char *what);
void vp_reach(const char *what);
bool vp_same(uint64_t a, uint64_t b);
bool vp_alive(const void *);
/* number of live heap objects */
uint64_t vp_heap(void);
/* from here on allocations fail / succeed again */
void vp_nomem(bool);
/* from here on whatever exists is shared with other readers: plain writes to it are violations */
void vp_share(void);
/* another thread running fn(arg); threads interleave at accesses to watched locations */
void vp_thread(void (*fn)(void *), void *arg);
void vp_watch(const volatile void *p, size_t n);
void vp_join(void);
/* what the clock of this id will say; run a load-time initialiser */
void vp_clock(int id, uint64_t sec, uint64_t nsec, uint64_t resolution);
void vp_ctor(const char *file, int n);
void vp_dump(const char *, uint64_t);
}
#define VP_CELLS_I(x, ...)                                                     \
  do {                                                                         \
    static const int64_t vp_pts_[] = {__VA_ARGS__};                            \
    vp_cells_i((x), vp_pts_, sizeof(vp_pts_) / 8);                             \
  } while (0)
#define VP_CELLS_U(x, ...)                                                     \
  do {                                                                         \
    static const uint64_t vp_pts_[] = {__VA_ARGS__};                           \
    vp_cells_u((x), vp_pts_, sizeof(vp_pts_) / 8);                             \
  } while (0)
#define VP_FCELLS(x, ...)                                                      \
  do {                                                                         \
    static const double vp_pts_[] = {__VA_ARGS__};                             \
    vp_fcells((x), vp_pts_, sizeof(vp_pts_) / 8);                              \
  } while (0)
#define VP_OBLIGATION(NAME) extern "C" __attribute__((used)) void NAME()
