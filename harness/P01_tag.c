/* P01: logical-time arithmetic. Real code: core/tag.c. Loop-free, full 64/32-bit symbolic inputs: complete. */
#include "vf.h"
#include "vf_env_min.h"
#include "tag.h"
#include "tag_spec.h"

instant_t lf_time_add(instant_t a, interval_t b) REQUIRES(1)
    ENSURES(spec_time_add_ok(__CPROVER_return_value, a, b)) ASSIGNS();
tag_t lf_tag_add(tag_t a, tag_t b) REQUIRES(1) ENSURES(spec_tag_add_ok(__CPROVER_return_value, a, b)) ASSIGNS();
int lf_tag_compare(tag_t tag1, tag_t tag2) REQUIRES(1)
    ENSURES(__CPROVER_return_value == spec_cmp(tag1, tag2)) ASSIGNS();
/* documented exception: a microstep at its maximum wraps */
tag_t lf_delay_tag(tag_t tag, interval_t interval) REQUIRES(interval >= 0 || interval == NEVER)
    ENSURES(spec_eq(__CPROVER_return_value, spec_delay(tag, interval))) ASSIGNS();
tag_t lf_delay_strict(tag_t tag, interval_t interval) REQUIRES(interval >= 0 || interval == NEVER)
    ENSURES(spec_eq(__CPROVER_return_value, spec_delay_strict(tag, interval))) ASSIGNS();

#include "core/tag.c"

static tag_t nd_tag(void) {
  tag_t t;
  t.time = nd_i64();
  t.microstep = nd_u32();
  return t;
}

void h_time_add(void) {
  instant_t a = nd_i64();
  interval_t b = nd_i64();
  instant_t r = lf_time_add(a, b);
  CHECK(spec_time_add_ok(r, a, b), "sum of times is exact or saturates");
  COVER("time_add");
}
void h_tag_add(void) {
  tag_t a = nd_tag(), b = nd_tag();
  tag_t r = lf_tag_add(a, b);
  CHECK(spec_tag_add_ok(r, a, b), "sum of tags is exact or saturates");
  COVER("tag_add");
}
void h_compare(void) {
  tag_t a = nd_tag(), b = nd_tag();
  int r = lf_tag_compare(a, b);
  CHECK(r == spec_cmp(a, b), "comparison is the lexicographic order");
  COVER("compare");
}
/* lemmas over the contracts of the callees */
void l_order(void) {
  tag_t a = nd_tag(), b = nd_tag(), c = nd_tag();
  int r = lf_tag_compare(a, b);
  CHECK(lf_tag_compare(b, a) == -r, "comparison is antisymmetric");
  CHECK(IMPLIES(r <= 0 && lf_tag_compare(b, c) <= 0, lf_tag_compare(a, c) <= 0), "comparison is transitive");
  CHECK((r == 0) == spec_eq(a, b), "only identical tags compare equal");
  COVER("order");
}
void l_strict(void) {
  tag_t a = nd_tag(), x = nd_tag();
  interval_t d = nd_i64();
  ASSUME(d > 0 && d != FOREVER);
  tag_t r = lf_delay_strict(a, d), g = lf_delay_tag(a, d);
  if (g.time != FOREVER && g.time != NEVER) {
    CHECK(spec_cmp(r, g) < 0, "strict delay is earlier than the delayed tag");
    CHECK(IMPLIES(spec_cmp(x, g) < 0, spec_cmp(x, r) <= 0), "no tag lies between strict delay and delayed tag");
    COVER("strict");
  }
}
void l_monotone(void) {
  tag_t a = nd_tag(), b = nd_tag();
  interval_t d = nd_i64();
  ASSUME(d >= 0 || d == NEVER);
  ASSUME(d != 0 || (a.microstep != UINT_MAX && b.microstep != UINT_MAX));
  tag_t x = lf_delay_tag(a, d), y = lf_delay_tag(b, d);
  CHECK(IMPLIES(spec_cmp(a, b) <= 0, spec_cmp(x, y) <= 0), "delaying preserves order");
  CHECK(spec_cmp(x, a) >= 0 || a.time >= FOREVER, "delaying never yields an earlier tag");
  COVER("monotone");
}
void h_delay(void) {
  tag_t a = nd_tag();
  interval_t d = nd_i64();
  ASSUME(d >= 0 || d == NEVER);
  tag_t r = lf_delay_tag(a, d);
  CHECK(spec_eq(r, spec_delay(a, d)), "delayed tag is next microstep / later time / saturated");
  CHECK(IMPLIES(d != 0 || a.microstep != UINT_MAX, spec_cmp(r, a) >= 0), "delaying never yields an earlier tag");
  COVER("delay");
}
void h_delay_strict(void) {
  tag_t a = nd_tag();
  interval_t d = nd_i64();
  ASSUME(d >= 0 || d == NEVER);
  tag_t r = lf_delay_strict(a, d);
  CHECK(spec_eq(r, spec_delay_strict(a, d)), "strict delay is the greatest tag before the delayed tag");
  COVER("delay_strict");
}
