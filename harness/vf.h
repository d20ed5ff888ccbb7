/* Common harness vocabulary. One text, three readings:
 *   goto-cc + goto-instrument --dfcc (contract proof), cbmc without contracts (counterexample search),
 *   gcc -DVF_REPLAY (the counterexample replayed natively on the real code).
 */
#ifndef VF_H
#define VF_H
#include <stdint.h>
#include <stdbool.h>
#include <stddef.h>
#include <limits.h>
#include <stdlib.h>
#include <string.h>
#include <stdio.h>

#ifdef VF_REPLAY
#define REQUIRES(x)
#define ENSURES(x)
#define ASSIGNS(...)
#define FREES(...)
static FILE* vf_in;
static int64_t nd_raw(void) {
  long long v = 0;
  if (!vf_in) {
    const char* p = getenv("VF_VALUES");
    vf_in = p ? fopen(p, "r") : NULL;
    if (!vf_in) { fprintf(stderr, "VF: no values file\n"); exit(77); }
  }
  if (fscanf(vf_in, "%lld", &v) != 1) v = 0;
  return (int64_t)v;
}
#define ASSUME(c)                                                                                                      \
  do {                                                                                                                 \
    if (!(c)) {                                                                                                        \
      fprintf(stderr, "VF: precondition not met natively: %s\n", #c);                                                  \
      _Exit(77);                                                                                                       \
    }                                                                                                                  \
  } while (0)
#define CHECK(c, name)                                                                                                 \
  do {                                                                                                                 \
    if (!(c)) {                                                                                                        \
      fprintf(stderr, "VF-CHECK-FAILED: %s\n", name);                                                                  \
      fflush(stderr);                                                                                                  \
      _Exit(99);                                                                                                       \
    }                                                                                                                  \
  } while (0)
#define COVER(name) ((void)0)
#define VF_STOP()                                                                                                      \
  do {                                                                                                                 \
    fprintf(stderr, "VF: process exit reached\n");                                                                     \
    _Exit(0);                                                                                                          \
  } while (0)
#else
#define REQUIRES(x) __CPROVER_requires(x)
#define ENSURES(x) __CPROVER_ensures(x)
#define ASSIGNS(...) __CPROVER_assigns(__VA_ARGS__)
#define FREES(...) __CPROVER_frees(__VA_ARGS__)
int64_t nondet_vf_i64(void);
static int64_t nd_raw(void) {
  int64_t vf_nd_value = nondet_vf_i64();
  __CPROVER_input("vf_nd", vf_nd_value);
  return vf_nd_value;
}
#define ASSUME(c) __CPROVER_assume(c)
#define CHECK(c, name) __CPROVER_assert(c, "VF:" name)
/* reachability: must FAIL in the vacuity run (compiled only with -DVF_COVER) */
#ifdef VF_COVER
#define COVER(name) __CPROVER_assert(0, "VFCOVER:" name)
#else
#define COVER(name) ((void)0)
#endif
#define VF_STOP() __CPROVER_assume(0)
/* loop-contract instrumentation leaves CBMC's own settings arbitrary: allocation succeeds */
extern __CPROVER_bool __CPROVER_malloc_may_fail;
#define VF_ALLOC_OK() (__CPROVER_malloc_may_fail = 0)
#endif
#ifdef VF_REPLAY
#define VF_ALLOC_OK() ((void)0)
#endif
/* inputs */
static inline int64_t nd_i64(void) { return nd_raw(); }
static inline uint64_t nd_u64(void) { return (uint64_t)nd_raw(); }
static inline uint32_t nd_u32(void) { return (uint32_t)nd_raw(); }
static inline int32_t nd_i32(void) { return (int32_t)nd_raw(); }
static inline uint16_t nd_u16(void) { return (uint16_t)nd_raw(); }
static inline uint8_t nd_u8(void) { return (uint8_t)nd_raw(); }
static inline bool nd_bool(void) { return (nd_raw() & 1) != 0; }
/* value in [lo, hi] */
static inline int64_t nd_range(int64_t lo, int64_t hi) {
  int64_t v = nd_raw();
  ASSUME(v >= lo && v <= hi);
  return v;
}
static inline void* vf_alloc(size_t n) {
  void* p = malloc(n);
  ASSUME(p != NULL);
  return p;
}
#define IMPLIES(a, b) (!(a) || (b))
#endif
