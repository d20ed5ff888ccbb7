/* Specification of tag arithmetic, written from its documentation, independent of core/tag.c. */
#ifndef TAG_SPEC_H
#define TAG_SPEC_H
typedef __int128 vf_int; /* mathematical for 64-bit operands */
#define SPEC_MAX ((int64_t)0x7fffffffffffffffLL)
#define SPEC_MIN (-SPEC_MAX - 1)
static inline int spec_cmp(tag_t a, tag_t b) {
  if (a.time != b.time) return a.time < b.time ? -1 : 1;
  if (a.microstep != b.microstep) return a.microstep < b.microstep ? -1 : 1;
  return 0;
}
static inline bool spec_eq(tag_t a, tag_t b) { return a.time == b.time && a.microstep == b.microstep; }
static inline int64_t spec_time_add(int64_t a, int64_t b) {
  if (a == SPEC_MIN || b == SPEC_MIN) return SPEC_MIN;
  if (a == SPEC_MAX || b == SPEC_MAX) return SPEC_MAX;
  vf_int s = (vf_int)a + (vf_int)b;
  if (s >= (vf_int)SPEC_MAX) return SPEC_MAX;
  if (s <= (vf_int)SPEC_MIN) return SPEC_MIN;
  return (int64_t)s;
}
static inline bool spec_time_add_ok(int64_t r, int64_t a, int64_t b) { return r == spec_time_add(a, b); }
static inline tag_t spec_tag(int64_t t, uint32_t m) {
  tag_t r;
  r.time = t;
  r.microstep = m;
  return r;
}
static inline tag_t spec_tag_add(tag_t a, tag_t b) {
  int64_t t = spec_time_add(a.time, b.time);
  if (t == SPEC_MAX) return spec_tag(SPEC_MAX, UINT_MAX);
  if (t == SPEC_MIN) return spec_tag(SPEC_MIN, 0);
  uint64_t m = (uint64_t)(b.time > 0 ? 0 : a.microstep) + (uint64_t)b.microstep;
  if (m > UINT_MAX) return spec_tag(SPEC_MAX, UINT_MAX);
  return spec_tag(t, (uint32_t)m);
}
/* In the modular proofs of callers (-DVF_ABSTRACT) the arithmetic helpers are known only as functions of their
 * arguments (their exact contracts are proved under P01); the counterexample search uses the real bodies. */
#ifdef VF_ABSTRACT
int64_t __CPROVER_uninterpreted_tadd_t(int64_t, uint32_t, int64_t, uint32_t);
uint32_t __CPROVER_uninterpreted_tadd_m(int64_t, uint32_t, int64_t, uint32_t);
int64_t __CPROVER_uninterpreted_delay_t(int64_t, uint32_t, int64_t);
uint32_t __CPROVER_uninterpreted_delay_m(int64_t, uint32_t, int64_t);
int64_t __CPROVER_uninterpreted_strict_t(int64_t, uint32_t, int64_t);
uint32_t __CPROVER_uninterpreted_strict_m(int64_t, uint32_t, int64_t);
/* STUB: lf_tag_add, lf_delay_tag, lf_delay_strict in proofs of their callers: uninterpreted functions (P01 has the contracts) */
tag_t abs_lf_tag_add(tag_t a, tag_t b) {
  return spec_tag(__CPROVER_uninterpreted_tadd_t(a.time, a.microstep, b.time, b.microstep),
                  __CPROVER_uninterpreted_tadd_m(a.time, a.microstep, b.time, b.microstep));
}
tag_t abs_lf_delay_tag(tag_t a, interval_t d) {
  return spec_tag(__CPROVER_uninterpreted_delay_t(a.time, a.microstep, d),
                  __CPROVER_uninterpreted_delay_m(a.time, a.microstep, d));
}
tag_t abs_lf_delay_strict(tag_t a, interval_t d) {
  return spec_tag(__CPROVER_uninterpreted_strict_t(a.time, a.microstep, d),
                  __CPROVER_uninterpreted_strict_m(a.time, a.microstep, d));
}
#define u_tag_add abs_lf_tag_add
#define u_delay abs_lf_delay_tag
#define u_delay_strict abs_lf_delay_strict
#else
#define u_tag_add spec_tag_add
#define u_delay spec_delay
#define u_delay_strict spec_delay_strict
#endif
static inline bool spec_tag_add_ok(tag_t r, tag_t a, tag_t b) { return spec_eq(r, spec_tag_add(a, b)); }
/* after-delay: NEVER = no delay */
static inline tag_t spec_delay(tag_t a, int64_t d) {
  if (a.time == SPEC_MIN || d < 0) return a;
  if ((vf_int)a.time + (vf_int)d >= (vf_int)SPEC_MAX) return spec_tag(SPEC_MAX, UINT_MAX);
  if (d == 0) return spec_tag(a.time, a.microstep + 1u);
  return spec_tag(a.time + d, 0);
}
static inline tag_t spec_delay_strict(tag_t a, int64_t d) {
  tag_t g = spec_delay(a, d);
  if (d <= 0 || d == SPEC_MAX || g.time == SPEC_MIN || g.time == SPEC_MAX) return g;
  return spec_tag(g.time - 1, UINT_MAX);
}
#endif
