/* P11 (and P16 for these functions): scheduling.  Real code: lib/schedule.c lf_schedule_trigger, lf_schedule_token,
 * lf_schedule_int, lf_schedule_copy, lf_schedule_value; core/reactor_common.c _lf_schedule_at_tag, lf_replace_token */
#include "vf.h"
#define RT_OWN_CLOCK
#define RT_HOOKS "P11_hooks.h"
#include "rt_env.h"
#ifdef VF_P16
#define CHECK11(c, n) ((void)0)
#define CHECK16(c, n) CHECK(c, n)
#else
#define CHECK11(c, n) CHECK(c, n)
#define CHECK16(c, n) ((void)0)
#endif
static void vf_on_lock(void* m) {}
static void vf_wait_effect(lf_cond_t* c) {}
/* STUB: lf_clock_gettime: any value; the last one read is the physical time of the event */
static instant_t g_now;
static int g_now_n;
int lf_clock_gettime(instant_t* t) {
  g_now = nd_i64();
  ASSUME(g_now >= 0 && g_now < FOREVER / 4);
  g_now_n++;
  *t = g_now;
  return 0;
}
static environment_t* env;
static trigger_t* trig;
static tag_t b_cur, b_stop, b_last;
static lf_token_t *tok, *old_tok; /* the payload; the payload of an already queued event (possibly the same) */
static size_t b_rc, b_old_rc;
static event_t* qev; /* the event found in the queue */
static int n_ins, n_new, n_rec, freed_new, freed_old;
static event_t* ins_e;
static tag_t ins_tag, looked, probe;
static bool looked_taken, probe_seen; /* of the last tag looked up; the arbitrary tag probe was looked up and is taken */
/* a queued event for this trigger at that tag? */
#if !defined(VF_SEARCH) && !defined(VF_REPLAY)
_Bool __CPROVER_uninterpreted_occ(int64_t, uint32_t);
static bool occ0(tag_t t) { return __CPROVER_uninterpreted_occ(t.time, t.microstep); }
#else
/* the queue of the concrete run: up to three events of this trigger */
static tag_t q_tag[3];
static bool q_on[3];
static bool occ0(tag_t t) { return (q_on[0] && spec_eq(q_tag[0], t)) || (q_on[1] && spec_eq(q_tag[1], t)) || (q_on[2] && spec_eq(q_tag[2], t)); }
#endif
/* queued events are in the future; spaced events are not after the last one; no event is queued at infinity and not every
 * microstep is taken */
static bool occ(tag_t t) {
  return occ0(t) && spec_cmp(t, b_cur) > 0 && t.time < FOREVER && t.microstep < UINT_MAX - 1 && (trig->period <= 0 || trig->is_timer || spec_cmp(t, b_last) <= 0);
}
/* STUB: pqueue_tag_find_equal_same_tag, pqueue_tag_insert, pqueue_tag_pop by their contracts (P13): a set of events */
pqueue_tag_element_t* vf_find(pqueue_tag_t* q, pqueue_tag_element_t* e) {
  CHECK11(q == env->event_q && ((event_t*)e)->trigger == trig, "conflicts are looked for among the trigger's queued events");
  looked = e->tag;
  looked_taken = occ(e->tag);
  if (!looked_taken) return NULL;
  if (spec_eq(e->tag, probe)) probe_seen = true;
  qev->base.tag = e->tag;
  return (pqueue_tag_element_t*)qev;
}
int vf_insert(pqueue_tag_t* q, pqueue_tag_element_t* e) {
  if (q == env->recycle_q) {
    CHECK11((event_t*)e != qev && !(n_ins && (event_t*)e == ins_e), "only unused events are recycled");
    n_rec++;
    return 0;
  }
  n_ins++;
  ins_e = (event_t*)e;
  ins_tag = e->tag;
  CHECK11(q == env->event_q, "the event goes to the environment's queue");
  return 0;
}
/* STUB: _lf_done_using by its contract (P16): one holder fewer; the last one frees */
token_freed vf_done_using(lf_token_t* t) {
  if (t == NULL) return NOT_FREED;
  CHECK16(t->ref_count > 0, "a payload is released only by a holder");
  if (t->ref_count == 0) return NOT_FREED;
  t->ref_count--;
  if (t->ref_count == 0) {
    if (t == tok) freed_new++;
    else freed_old++;
    return TOKEN_FREED;
  }
  return NOT_FREED;
}
pqueue_tag_element_t* vf_pop(pqueue_tag_t* q) {
  CHECK11(q == env->recycle_q, "scheduling takes no event from the queue");
  n_new++;
  return NULL;
}
static void setup(void) {
  env = (environment_t*)vf_alloc(sizeof(environment_t));
  trig = (trigger_t*)vf_alloc(sizeof(trigger_t));
  qev = (event_t*)vf_alloc(sizeof(event_t));
  n_ins = n_new = n_rec = freed_new = freed_old = g_now_n = 0;
  env->current_tag = b_cur = spec_tag(nd_i64(), nd_u32());
  ASSUME(b_cur.time >= 0 && b_cur.time < FOREVER / 4 && b_cur.microstep < UINT_MAX / 2);
  env->stop_tag = b_stop = spec_tag(nd_i64(), nd_u32());
  env->_lf_handle = (trigger_handle_t)nd_range(1, INT_MAX - 1);
  env->execution_started = true;
  start_time = 0;
  trig->is_timer = nd_bool();
  trig->is_physical = !trig->is_timer && nd_bool();
  trig->offset = nd_i64();
  ASSUME(trig->offset >= 0);
  trig->period = nd_i64();
  trig->policy = (lf_spacing_policy_t)nd_range(defer, replace);
  trig->last_tag = b_last = spec_tag(nd_i64(), nd_u32());
  ASSUME(b_last.time == NEVER || (b_last.time >= 0 && b_last.time < FOREVER));
#ifdef FEDERATED
  trig->intended_tag = NEVER_TAG;
#endif
  tok = nd_bool() ? (lf_token_t*)vf_alloc(sizeof(lf_token_t)) : NULL;
  b_rc = (size_t)nd_range(0, 1000);
  b_old_rc = (size_t)nd_range(1, 1000);
  int k = (int)nd_range(0, 2);
  old_tok = k == 0 ? NULL : k == 1 ? tok : (lf_token_t*)vf_alloc(sizeof(lf_token_t));
  if (old_tok) old_tok->ref_count = b_old_rc;
  if (tok) tok->ref_count = b_rc;
  if (tok && tok == old_tok) ASSUME(b_rc >= 1); /* the queued event is a holder */
  qev->trigger = trig;
  qev->token = old_tok;
  env->event_q = (pqueue_tag_t*)vf_alloc(1);
  env->recycle_q = (pqueue_tag_t*)vf_alloc(1);
#if defined(VF_SEARCH) || defined(VF_REPLAY)
  for (int i = 0; i < 3; i++) {
    q_tag[i] = spec_tag(nd_i64(), nd_u32());
    q_on[i] = nd_bool();
  }
#endif
}
static void frame(void) {
  CHECK11(spec_eq(env->current_tag, b_cur) && spec_eq(env->stop_tag, b_stop), "scheduling does not change the current tag or the stop tag");
  CHECK11(n_new == n_rec + n_ins, "every event taken is queued or given back");
}
/* where the payload is afterwards: one holder more if queued, none otherwise */
static void payload(bool queued, bool replaced) {
  size_t want = b_rc + (queued || (replaced && old_tok != tok) ? 1 : 0);
  if (tok) {
    CHECK16(tok->ref_count == want, "the payload has exactly one more holder if its event is queued, and none otherwise");
    CHECK16(freed_new == (b_rc == 0 && !queued && !replaced), "a payload nobody else holds is freed when its event is not queued");
  }
  if (old_tok && old_tok != tok) {
    CHECK16(old_tok->ref_count == b_old_rc - (replaced ? 1 : 0), "a replaced payload loses one holder");
    CHECK16(freed_old == (replaced && b_old_rc == 1), "a replaced payload is freed when nobody else holds it");
  }
  if (replaced) CHECK16(qev->token == tok, "the queued event carries the new payload");
  else CHECK16(qev->token == old_tok, "other queued events keep their payload");
  if (queued) CHECK16(ins_e->token == tok, "the queued event carries the payload");
}
void h_trigger(void) {
  setup();
  interval_t extra = nd_i64();
  bool no_trigger = nd_bool();
  probe = spec_tag(nd_i64(), nd_u32());
  probe_seen = false;
  lf_schedule_trigger(env, no_trigger ? NULL : trig, extra, tok);
  frame();
  if (spec_cmp(b_cur, b_stop) > 0 || no_trigger) {
    CHECK11(n_ins == 0, "nothing is scheduled after the stop tag");
    payload(false, false);
    COVER("no trigger");
    return;
  }
  if (extra < 0) extra = 0;
  interval_t delay = trig->is_timer ? extra : spec_time_add(extra, trig->offset);
  tag_t base;
  if (trig->is_physical) {
    CHECK11(g_now_n >= 1, "a physical action reads the physical clock");
    base = spec_tag(spec_time_add(g_now, delay), 0);
    if (spec_cmp(base, b_cur) <= 0) base = spec_tag(b_cur.time, b_cur.microstep + 1);
  } else {
    base = spec_delay(b_cur, delay);
  }
  bool replaced = false, dropped = false;
  tag_t t = base;
  interval_t earliest = trig->period <= 0 || b_last.time == NEVER ? NEVER : spec_time_add(b_last.time, trig->period);
  bool early = trig->period > 0 && !trig->is_timer && b_last.time != NEVER && earliest > base.time;
  if (early) {
    t = spec_tag(earliest, 0);
    dropped = trig->policy == drop;
    replaced = trig->policy == replace && occ(b_last);
    COVER("early");
  }
  if (dropped || replaced) {
    CHECK11(n_ins == 0, "an event that comes too early is dropped, or replaces the payload of the queued one");
    CHECK11(spec_eq(trig->last_tag, b_last), "a dropped or replacing event does not count as the last one");
    payload(false, replaced);
    COVER("dropped");
    return;
  }
  if (n_ins == 0) {
    /* rejected: the tag it would have had is after the stop tag */
    tag_t r = t;
    if (trig->period <= 0 && spec_cmp(t, b_stop) <= 0 && t.time < FOREVER) CHECK11(occ(t), "an event is rejected only if it would be after the stop tag");
    else CHECK11(spec_cmp(t, b_stop) > 0 || t.time == FOREVER, "an event is rejected only if it would be after the stop tag");
    CHECK11(spec_eq(trig->last_tag, b_last), "a rejected event does not count as the last one");
    payload(false, false);
    COVER("rejected");
    return;
  }
  CHECK11(n_ins == 1, "a successful call adds exactly one event");
  CHECK11(ins_e->trigger == trig, "the event belongs to the trigger");
  CHECK11(spec_cmp(ins_tag, b_cur) > 0, "the event is strictly in the future");
  CHECK11(spec_cmp(ins_tag, b_stop) <= 0, "the event is not after the stop tag");
  if (trig->period <= 0) {
    CHECK11(ins_tag.time == t.time && ins_tag.microstep >= t.microstep, "the event is at the time its delays dictate");
    if (probe.time == t.time && probe.microstep >= t.microstep && probe.microstep < ins_tag.microstep)
      CHECK11(probe_seen, "only taken microsteps are skipped");
    CHECK11(spec_eq(looked, ins_tag) && !looked_taken, "no two queued events of a trigger share a tag");
  } else {
    CHECK11(spec_eq(ins_tag, t), "the event is at the tag its delays and minimum spacing dictate");
    if (!trig->is_timer && trig->policy == defer && b_last.time != NEVER) CHECK11(!occ(ins_tag), "no two queued events of a trigger share a tag");
  }
  CHECK11(spec_eq(trig->last_tag, ins_tag), "the event is recorded as the last one");
  payload(true, false);
  COVER("queued");
}
void h_at_tag(void) {
  setup();
  env->execution_started = nd_bool();
  tag_t t = spec_tag(nd_i64(), nd_u32());
  probe = spec_tag(nd_i64(), nd_u32());
  probe_seen = false;
  ASSUME(t.time >= 0 && t.time < FOREVER && t.microstep < UINT_MAX - 1);
  trig->period = 0;
  int r = _lf_schedule_at_tag(env, trig, t, tok);
  frame();
  CHECK11(spec_eq(trig->last_tag, b_last), "scheduling at a tag leaves the trigger alone");
  if (spec_cmp(t, b_cur) <= 0 && env->execution_started) {
    CHECK11(n_ins == 0 && r == -1, "an event that is not in the future is refused");
    payload(false, false);
    COVER("past");
    return;
  }
  if (spec_cmp(t, b_stop) > 0) {
    CHECK11(n_ins == 0 && r == -1, "an event after the stop tag is refused");
    payload(false, false);
    return;
  }
  bool taken = occ(t);
  if (taken && (trig->policy == drop || trig->policy == replace)) {
    CHECK11(n_ins == 0, "a conflicting event is dropped or replaces the payload of the queued one");
    payload(false, trig->policy == replace);
    COVER("conflict");
    return;
  }
  if (n_ins == 0) {
    CHECK11(taken, "an event is rejected only if it would be after the stop tag");
    payload(false, false);
    COVER("rejected");
    return;
  }
  CHECK11(n_ins == 1, "a successful call adds exactly one event");
  CHECK11(ins_e->trigger == trig, "the event belongs to the trigger");
  CHECK11(spec_cmp(ins_tag, b_stop) <= 0, "the event is not after the stop tag");
  CHECK11(ins_tag.time == t.time && ins_tag.microstep >= t.microstep && (taken || spec_eq(ins_tag, t)), "the event is at the requested tag");
  if (probe.time == t.time && probe.microstep >= t.microstep && probe.microstep < ins_tag.microstep) CHECK11(probe_seen, "only taken microsteps are skipped");
  CHECK11(spec_eq(looked, ins_tag) && !looked_taken, "no two queued events of a trigger share a tag");
  payload(true, false);
  COVER("queued");
}
