/* P17: the runtime's clock never runs backwards.  Real code: core/clock.c */
#include "vf.h"
#include "vf_env_min.h"
#include "low_level_platform.h"
#include "clock.h"
#include "platform/lf_atomic.h"
#ifdef FEDERATED
#include "clock-sync.h"
/* STUB: clock_sync_add_offset/subtract_offset: add/subtract an arbitrary offset (the real ones are P23's) */
static interval_t offset;
void clock_sync_add_offset(instant_t* t) { *t += offset; }
void clock_sync_subtract_offset(instant_t* t) { *t -= offset; }
#else
#define offset 0
#endif
/* STUB: _lf_clock_gettime: any value (also stepping backwards), or failure */
instant_t g_under, g_corrected;
int g_fail;
int _lf_clock_gettime(instant_t* t) {
  *t = g_under;
  return g_fail;
}
/* STUB: lf_atomic_fetch_add64, lf_atomic_bool_compare_and_swap64: atomic, preceded by any number of complete readings by
 * other threads, which only raise the shared value */
int64_t* g_ptr;
int64_t g_env; /* the latest value, ghost copy */
int64_t g_first, g_before_swap, g_installed;
_Bool g_swapped;
static void others(int64_t* p) {
  CHECK(!g_swapped, "the reading is complete once installed");
  int64_t v = nd_i64();
#ifdef VF_SEARCH
  ASSUME(v >= *p && v < *p + 3);
#else
  ASSUME(v >= *p && v < FOREVER);
#endif
  *p = v;
  g_ptr = p;
}
int64_t lf_atomic_fetch_add64(int64_t* p, int64_t v) {
  others(p);
  int64_t o = *p;
  *p += v;
  CHECK(*p >= o, "the shared reading never decreases");
  return o;
}
bool lf_atomic_bool_compare_and_swap64(int64_t* p, int64_t o, int64_t n) {
  others(p);
  if (*p != o) return false;
  CHECK(n >= *p, "the shared reading never decreases");
  g_before_swap = *p;
  g_installed = n;
  g_swapped = true;
  *p = n;
  return true;
}
int64_t lf_atomic_val_compare_and_swap64(int64_t* p, int64_t o, int64_t n) {
  others(p);
  int64_t r = *p;
  if (r != o) return r;
  CHECK(n >= *p, "the shared reading never decreases");
  g_before_swap = r;
  g_installed = n;
  g_swapped = true;
  *p = n;
  return r;
}
/* STUB: _lf_interruptable_sleep_until_locked, _lf_cond_timedwait: record the wake-up time they are given */
static instant_t g_wake;
static int n_wake;
int _lf_interruptable_sleep_until_locked(environment_t* env, instant_t t) {
  g_wake = t;
  n_wake++;
  return 0;
}
int _lf_cond_timedwait(lf_cond_t* c, instant_t t) {
  g_wake = t;
  n_wake++;
  return 0;
}
#include "core/clock.c"
void h_gettime(void) {
#ifdef VF_SEARCH
  last_read_physical_time = nd_range(0, 4);
  g_under = nd_range(0, 8);
#else
  last_read_physical_time = nd_i64();
  ASSUME(last_read_physical_time < FOREVER);
  g_under = nd_i64();
  ASSUME(g_under > NEVER / 2 && g_under < FOREVER / 2);
#endif
#ifdef FEDERATED
  offset = nd_range(NEVER / 2, FOREVER / 2);
#endif
  g_fail = (int)nd_range(-1, 0);
  g_corrected = g_under + offset;
  g_first = last_read_physical_time;
  instant_t now = 0;
  g_swapped = false;
  int r = lf_clock_gettime(&now);
  CHECK((r == 0) == (g_fail == 0), "a failure to read the clock is reported");
  if (r == 0) {
    CHECK(now >= g_first, "a reading is never below one that completed before it began");
    CHECK(g_swapped && g_installed == now, "the reading returned is the one that was installed");
    CHECK(now >= g_before_swap, "a reading is never below one installed before it");
    CHECK(now >= g_corrected, "a reading is never below the corrected clock");
    CHECK(IMPLIES(g_corrected >= g_before_swap, now == g_corrected), "a clock ahead of all readings is returned as it is");
  }
  COVER("gettime");
  if (r == 0 && now != g_corrected) COVER("stepped back");
}
void h_sleep(void) {
  instant_t t = nd_range(0, FOREVER / 2);
#ifdef FEDERATED
  offset = nd_range(NEVER / 4, FOREVER / 4);
#endif
  lf_cond_t c;
  if (nd_bool()) lf_clock_interruptable_sleep_until_locked(NULL, t);
  else lf_clock_cond_timedwait(&c, t);
  CHECK(n_wake == 1 && g_wake == t - offset, "waiting until a runtime time waits until the matching underlying time");
  COVER("sleep");
}
