/* P14 (and P12, P22 in part): logical time.  Real code: core/threaded/reactor_threaded.c _lf_increment_tag_barrier_locked,
 * _lf_decrement_tag_barrier_locked, _lf_wait_on_tag_barrier, get_next_event_tag, _lf_next_locked, lf_request_stop, wait_until;
 * core/reactor_common.c lf_set_stop_tag, lf_is_tag_after_stop_tag, _lf_advance_tag; core/reactor.c next, wait_until,
 * lf_request_stop; core/environment.c environment_init_tags */
#include "vf.h"
#define RT_OWN_CLOCK
#define RT_HOOKS "P14_hooks.h"
#define RT_HOOKS2 "P14_hooks2.h"
#ifdef VF_SMALL /* first stage of the concrete search */
static long long small_i64(void) {
  int i = (int)nd_range(0, 15);
  return i == 15 ? 9223372036854775807LL : i;
}
static unsigned small_u32(void) { return (unsigned)nd_range(0, 3); }
#define nd_i64 small_i64
#define nd_u32 small_u32
#endif
#ifndef NE
#define NE 1
#endif
#define VF_LOCKS (NE + 1)
#ifdef FEDERATED
#include "low_level_platform.h"
#include "lf_types.h"
#endif
#include "rt_env.h"
#ifdef FEDERATED
#include "federate.h"
federate_instance_t _fed;
#endif
static environment_t* env;
static event_t *head_ev, *later_ev;
static bool head_on;
static tag_t head_tag, b_cur, b_stop, b_hor;
static int b_req;
static instant_t g_phys;
static bool popped;
static int n_effects;
/* STUB: pqueue_tag_peek/pop/insert/size by their contracts (P13): the earliest event, arbitrary later ones */
static void head_sync(void) {
  if (head_on) head_ev->base.tag = head_tag;
}
pqueue_tag_element_t* vf_peek(pqueue_tag_t* q) {
  head_sync();
  return head_on ? (pqueue_tag_element_t*)head_ev : NULL;
}
pqueue_tag_element_t* vf_pop(pqueue_tag_t* q) { return NULL; }
int vf_insert(pqueue_tag_t* q, pqueue_tag_element_t* e) { return 0; }
size_t vf_size(pqueue_tag_t* q) { return head_on; }
/* STUB: _lf_start_time_step, _lf_trigger_shutdown_reactions, _lf_pop_events by their contracts (P12): what happens at a tag, in
 * this order, each once */
static int started, shut;
void vf_start_step(environment_t* e) {
  CHECK(e == env && !popped && spec_cmp(env->current_tag, b_cur) > 0, "presence is reset once the tag has advanced, before events are taken");
  started++;
}
void vf_shutdown(environment_t* e) {
  CHECK(e == env && spec_cmp(env->current_tag, env->stop_tag) >= 0, "shutdown happens at the stop tag");
  shut++;
}
void vf_pop_events(environment_t* e) {
  CHECK(e == env && started == 1 && !popped, "the events of the tag are taken once");
  popped = true;
}
size_t vf_rsize(pqueue_t* q) { return 0; }
/* STUB: lf_clock_gettime: time does not go backwards (P17) */
int lf_clock_gettime(instant_t* t) {
  instant_t n = nd_i64();
  ASSUME(n >= g_phys && n < FOREVER / 4);
  g_phys = n;
  *t = n;
  return 0;
}
/* what other threads may do while the lock is released: insert future events, lower the stop tag to the future, request and
 * release barriers */
#ifndef LF_SINGLE_THREADED
static bool state_ok(environment_t* e) {
  return e->barrier.requestors >= 0 && (e->barrier.requestors != 0 || spec_eq(e->barrier.horizon, FOREVER_TAG)) &&
         (e->barrier.requestors == 0 || spec_cmp(e->barrier.horizon, e->current_tag) > 0);
}
#endif
static void others_act(void) {
  n_effects = 1;
  tag_t t = spec_tag(nd_i64(), nd_u32());
  if (nd_bool()) {
    ASSUME(spec_cmp(t, env->current_tag) > 0 && t.time < FOREVER / 4 && (!head_on || spec_cmp(t, head_tag) < 0));
    head_on = true;
    head_tag = t;
  }
  tag_t s = spec_tag(nd_i64(), nd_u32());
  if (nd_bool()) {
    ASSUME(spec_cmp(s, env->current_tag) > 0 && spec_cmp(s, env->stop_tag) < 0);
    env->stop_tag = s;
  }
#ifndef LF_SINGLE_THREADED
  env->barrier.requestors = (int)nd_range(0, 5);
  env->barrier.horizon = spec_tag(nd_i64(), nd_u32());
  ASSUME(state_ok(env));
#endif
}
#ifndef LF_SINGLE_THREADED
static tag_t env_stop_moved[NE];
static bool may_advance; /* environments advance while their lock is not held */
static void vf_on_lock(void* m);
static void vf_wait_effect(lf_cond_t* c) { others_act(); }
static int n_waited;
static instant_t wait_limit;
int lf_clock_cond_timedwait(lf_cond_t* c, instant_t t) {
  CHECK(c == &env->event_q_changed, "new events wake the wait");
  others_act();
  wait_limit = t;
  if (nd_bool()) return 0;
  ASSUME(t < FOREVER / 4); /* physical time does not reach infinity */
  if (g_phys < t) g_phys = t;
  return LF_TIMEOUT;
}
#else
int lf_clock_interruptable_sleep_until_locked(environment_t* e, instant_t t) {
  CHECK(e == env, "the environment's own sleep");
  if (nd_bool()) {
    others_act();
    return -1;
  }
  ASSUME(t < FOREVER / 4);
  if (g_phys < t) g_phys = t;
  return 0;
}
/* STUB: _lf_do_step's contract is P15's: it does not touch the tag */
#endif
static void env_setup(environment_t* e) {
  e->current_tag = b_cur = spec_tag(nd_i64(), nd_u32());
  ASSUME(b_cur.time >= 0 && b_cur.time < FOREVER / 4 && b_cur.microstep < UINT_MAX);
  e->stop_tag = b_stop = spec_tag(nd_i64(), nd_u32());
  ASSUME(b_stop.time >= 0);
#ifndef LF_SINGLE_THREADED
  e->barrier.requestors = b_req = (int)nd_range(0, 1000);
  e->barrier.horizon = b_hor = spec_tag(nd_i64(), nd_u32());
  ASSUME(state_ok(e));
#endif
  e->event_q = (pqueue_tag_t*)vf_alloc(1);
  e->recycle_q = (pqueue_tag_t*)vf_alloc(1);
  e->execution_started = true;
  e->shutdown_reactions_size = 0;
  e->shutdown_reactions = NULL;
  e->is_present_fields_abbreviated_size = 0;
  e->is_present_fields_size = 0;
  e->sparse_io_record_sizes.start = NULL;
#ifdef MODAL_REACTORS
  e->modes = NULL;
#endif
}
static environment_t envs[NE];
static void setup(void) {
  env = &envs[0];
  g_envs = envs;
  g_num_envs = NE;
  start_time = 0;
  g_phys = nd_range(0, FOREVER / 8);
  popped = false;
  started = shut = 0;
  n_effects = 0;
  for (int i = NE - 1; i >= 0; i--) env_setup(&envs[i]);
  head_ev = (event_t*)vf_alloc(sizeof(event_t));
  head_ev->trigger = NULL; /* what an event does when it is taken is P12's */
  head_ev->token = NULL;
  head_on = nd_bool();
  head_tag = spec_tag(nd_i64(), nd_u32());
  ASSUME(spec_cmp(head_tag, b_cur) > 0 && head_tag.time < FOREVER / 4);
  fast = nd_bool();
  keepalive_specified = nd_bool();
}
#ifndef LF_SINGLE_THREADED
void h_barrier_up(void) {
  setup();
  tag_t t = spec_tag(nd_i64(), nd_u32());
  bool locked = nd_bool();
  if (locked) {
    lf_mutex_lock(&env->mutex);
    _lf_increment_tag_barrier_locked(env, t);
    CHECK26(vf_lock_total == 1, "the lock stays held");
  } else {
    _lf_increment_tag_barrier(env, t);
    CHECK26(vf_lock_total == 0, "the lock is released");
  }
  CHECK(env->barrier.requestors == b_req + 1, "each request is counted");
  tag_t next = spec_tag(b_cur.time, b_cur.microstep + 1);
  tag_t want = spec_cmp(t, b_stop) > 0 ? b_stop : t;
  if (spec_cmp(want, b_cur) <= 0) want = next;
  CHECK(spec_cmp(env->barrier.horizon, want) <= 0, "the horizon is no later than the tag requested");
  CHECK(spec_cmp(env->barrier.horizon, b_hor) <= 0, "the horizon is not raised while a request is outstanding");
  CHECK(spec_cmp(env->barrier.horizon, b_cur) > 0, "the horizon stays in the future");
  CHECK(spec_eq(env->barrier.horizon, b_hor) || spec_eq(env->barrier.horizon, want), "the horizon is the earliest tag requested");
  CHECK(spec_eq(env->current_tag, b_cur) && spec_eq(env->stop_tag, b_stop), "a barrier moves neither the current tag nor the stop tag");
  COVER("up");
}
void h_barrier_down(void) {
  setup();
  ASSUME(b_req > 0);
  int bc = vf_n_broadcast;
  lf_mutex_lock(&env->mutex);
  _lf_decrement_tag_barrier_locked(env);
  CHECK(env->barrier.requestors == b_req - 1, "each release is counted");
  CHECK(state_ok(env), "the barrier is consistent");
  if (b_req == 1) {
    CHECK(spec_eq(env->barrier.horizon, FOREVER_TAG), "without requests there is no horizon");
    CHECK(vf_n_broadcast == bc + 1, "the last release wakes those waiting");
  } else {
    CHECK(spec_eq(env->barrier.horizon, b_hor), "the horizon is not raised while a request is outstanding");
  }
  CHECK(spec_eq(env->current_tag, b_cur) && spec_eq(env->stop_tag, b_stop), "a barrier moves neither the current tag nor the stop tag");
  CHECK26(vf_lock_total == 1, "the lock stays held");
  COVER("down");
}
void h_barrier_wait(void) {
  setup();
  tag_t t = spec_tag(nd_i64(), nd_u32());
  lf_mutex_lock(&env->mutex);
  tag_t p0 = spec_cmp(t, env->stop_tag) > 0 ? env->stop_tag : t;
  int r = _lf_wait_on_tag_barrier(env, t);
  tag_t p = spec_cmp(t, env->stop_tag) > 0 ? env->stop_tag : t;
  CHECK(env->barrier.requestors == 0 || spec_cmp(p, env->barrier.horizon) < 0 || (p0.time == FOREVER && r == 0), "waits until the tag is below the horizon or no request is left");
  CHECK((r != 0) == (n_effects > 0), "reports whether it waited");
  CHECK26(vf_lock_total == 1, "the lock stays held");
  COVER("wait");
}
#endif
void h_stop_tag(void) {
  setup();
  tag_t t = spec_tag(nd_i64(), nd_u32());
  CHECK(lf_is_tag_after_stop_tag(env, t) == (spec_cmp(t, b_stop) > 0), "after the stop tag means strictly later");
  lf_set_stop_tag(env, t);
  CHECK(spec_eq(env->stop_tag, spec_cmp(t, b_stop) < 0 ? t : b_stop), "the stop tag never increases");
  CHECK(spec_eq(env->current_tag, b_cur), "setting the stop tag does not move time");
  instant_t s = nd_i64();
  interval_t d = nd_i64();
  ASSUME(s >= 0 && s < FOREVER / 4);
  environment_init_tags(env, s, d);
  CHECK(spec_eq(env->current_tag, spec_tag(s, 0)), "execution starts at the start tag");
  if (d >= 0) CHECK(env->stop_tag.time == spec_time_add(s, d) && env->stop_tag.microstep == 0, "the timeout sets the stop tag");
  else CHECK(spec_eq(env->stop_tag, FOREVER_TAG), "without a timeout there is no stop tag");
  CHECK(spec_cmp(env->stop_tag, env->current_tag) >= 0, "the stop tag is not before the start");
  COVER("stop");
}
void h_advance(void) {
  setup();
  tag_t t = spec_tag(nd_i64(), nd_u32());
  ASSUME(t.time >= 0);
  _lf_advance_tag(env, t);
  CHECK(spec_cmp(t, b_cur) > 0, "time only moves forward");
  CHECK(spec_eq(env->current_tag, t), "time advances to the tag given");
  CHECK(spec_eq(env->stop_tag, b_stop), "advancing does not move the stop tag");
  COVER("advance");
}
#ifndef LF_SINGLE_THREADED
void h_next_tag(void) {
  setup();
  tag_t t = get_next_event_tag(env);
  tag_t want = head_on ? head_tag : FOREVER_TAG;
  if (spec_cmp(want, b_stop) > 0) want = b_stop;
  CHECK(spec_eq(t, want), "the next tag is the earlier of the first event and the stop tag");
  CHECK(spec_eq(env->current_tag, b_cur) && spec_eq(env->stop_tag, b_stop) && !popped, "looking does not change anything");
  COVER("next tag");
}
#ifdef FEDERATED
/* STUB: lf_send_next_event_tag by its contract (P21): may wait; returns a tag that is safe to advance to */
static tag_t g_grant;
static bool g_asked;
tag_t lf_send_next_event_tag(environment_t* e, tag_t t, bool wait) {
  CHECK(e == env && wait, "asks for its own next tag and waits");
  others_act();
  g_grant = spec_tag(nd_i64(), nd_u32());
  g_asked = true;
  return g_grant;
}
/* STUB: lf_wait_until_time (P21): no earlier than the tag's time; lf_enqueue_port_absent_reactions, lf_update_max_level: P21 */
instant_t lf_wait_until_time(tag_t t) {
  instant_t w = nd_i64();
  ASSUME(w >= t.time);
  return w;
}
void lf_enqueue_port_absent_reactions(environment_t* e) {}
bool lf_update_max_level(tag_t t, bool p) { return nd_bool(); }
#endif
#endif
#ifdef VF_ABSTRACT
/* STUB: in the proof of _lf_next_locked, _lf_wait_on_tag_barrier is known by its contract (h_barrier_wait) */
int abs__lf_wait_on_tag_barrier(environment_t* e, tag_t t) {
  bool w = nd_bool();
  if (t.time == FOREVER && env->stop_tag.time == FOREVER) return 0;
  if (w) others_act();
  tag_t p = spec_cmp(t, env->stop_tag) > 0 ? env->stop_tag : t;
  ASSUME(env->barrier.requestors == 0 || spec_cmp(p, env->barrier.horizon) < 0);
  return w;
}
#endif
/* taking the next tag */
void h_next(void) {
  setup();
  ASSUME(spec_cmp(b_cur, b_stop) <= 0);
#ifdef LF_SINGLE_THREADED
  ASSUME(spec_cmp(b_cur, b_stop) < 0);
  int r = next(env);
#else
  lf_mutex_lock(&env->mutex);
  _lf_next_locked(env);
  CHECK26(vf_lock_total == 1, "the lock stays held");
#endif
  tag_t h = head_on ? head_tag : FOREVER_TAG;
  if (spec_eq(env->current_tag, b_cur)) {
    CHECK(!popped, "no event is taken without advancing");
    CHECK(!shut && !started, "nothing happens without advancing");
    COVER("stays");
    return;
  }
  tag_t want = spec_cmp(h, env->stop_tag) > 0 ? env->stop_tag : h;
  CHECK(spec_cmp(env->current_tag, b_cur) > 0, "time only moves forward");
  CHECK(spec_cmp(env->current_tag, env->stop_tag) <= 0, "time does not pass the stop tag");
  CHECK(spec_eq(env->current_tag, want), "time advances to the earlier of the first event and the stop tag");
  CHECK(popped && started == 1, "the events of the tag are taken");
  CHECK(shut == (spec_eq(env->current_tag, env->stop_tag) ? 1 : 0), "the shutdown reactions are triggered exactly when the stop tag is reached");
  CHECK(spec_cmp(env->stop_tag, b_stop) <= 0, "the stop tag never increases");
#if defined(FEDERATED) && !defined(LF_SINGLE_THREADED)
  CHECK(env->barrier.requestors == 0 || spec_cmp(env->current_tag, env->barrier.horizon) < 0 || env->current_tag.time == FOREVER, "time does not reach the horizon of a raised barrier");
#ifdef FEDERATED_CENTRALIZED
  CHECK(g_asked && spec_cmp(env->current_tag, g_grant) <= 0, "time advances only to a tag that was granted");
#endif
#endif
#ifdef LF_SINGLE_THREADED
  CHECK(fast || env->current_tag.time <= g_phys, "time does not pass physical time");
#else
  CHECK(fast || env->current_tag.time - MIN_SLEEP_DURATION <= g_phys, "time does not pass physical time");
#endif
  COVER("advances");
}
/* a stop request from inside this process */
static tag_t at_lock[NE], max_seen;
#ifndef LF_SINGLE_THREADED
static int n_locks[NE];
static void vf_on_lock(void* m) {
  for (int i = 0; i < NE; i++)
    if (m == &envs[i].mutex && may_advance) {
      n_locks[i]++;
#ifndef FEDERATED
      /* while its lock was free, the environment went on; without a federation nothing waits for the barrier */
      tag_t t = spec_tag(nd_i64(), nd_u32());
      ASSUME(spec_cmp(t, envs[i].current_tag) >= 0 && t.time < FOREVER / 4 && t.microstep < UINT_MAX);
      ASSUME(spec_cmp(t, envs[i].stop_tag) <= 0);
      envs[i].current_tag = t;
#endif
      at_lock[i] = envs[i].current_tag;
      if (spec_cmp(at_lock[i], max_seen) > 0) max_seen = at_lock[i];
    }
}
#endif
#ifdef FEDERATED
static int n_sent, send_result;
static tag_t sent_tag;
int lf_send_stop_request_to_rti(tag_t t) {
  n_sent++;
  sent_tag = t;
  CHECK26(vf_lock_total == 0, "no lock is held while asking for a stop");
  return send_result;
}
#endif
void h_request_stop(void) {
  setup();
#ifndef LF_SINGLE_THREADED
  tag_t stop0[NE];
  int req0[NE];
  tag_t hor0[NE];
  for (int i = 0; i < NE; i++) {
    stop0[i] = envs[i].stop_tag;
    req0[i] = envs[i].barrier.requestors;
    hor0[i] = envs[i].barrier.horizon;
    n_locks[i] = 0;
    ASSUME(spec_cmp(envs[i].current_tag, envs[i].stop_tag) <= 0);
  }
  may_advance = true;
  max_seen = envs[0].current_tag;
  bool before = nd_bool();
  lf_stop_requested = before;
#ifdef FEDERATED
  send_result = nd_bool() ? 0 : -1;
#endif
  int sig = vf_n_signal;
  lf_request_stop();
  CHECK26(vf_lock_total == 0, "all locks are released");
  CHECK(lf_stop_requested, "the request is remembered");
  tag_t max = NEVER_TAG;
  for (int i = 0; i < NE; i++) {
#ifdef FEDERATED
    if (spec_cmp(envs[i].current_tag, max) > 0) max = envs[i].current_tag;
    bool held = !before && send_result == 0;
    CHECK(envs[i].barrier.requestors == req0[i] + (held ? 1 : 0), "every environment is held while the stop is being negotiated");
    CHECK(spec_eq(envs[i].stop_tag, stop0[i]), "the stop tag is not set before it is agreed");
    if (held) CHECK(spec_cmp(envs[i].barrier.horizon, hor0[i]) <= 0, "the horizon is not raised while a request is outstanding");
#else
    CHECK(envs[i].barrier.requestors == req0[i], "the barrier is released again");
    CHECK(spec_cmp(envs[i].stop_tag, stop0[i]) <= 0, "the stop tag never increases");
    if (before) CHECK(spec_eq(envs[i].stop_tag, stop0[i]), "a second request changes nothing");
    else {
      CHECK(spec_cmp(envs[i].stop_tag, at_lock[i]) > 0 || spec_eq(envs[i].stop_tag, stop0[i]), "the stop tag is after the current tag");
      CHECK(spec_cmp(envs[i].stop_tag, FOREVER_TAG) < 0, "a stop tag is set");
      CHECK(spec_cmp(envs[i].stop_tag, spec_cmp(at_lock[i], max_seen) > 0 ? spec_tag(at_lock[i].time, at_lock[i].microstep + 1) : spec_tag(max_seen.time, max_seen.microstep + 1)) <= 0, "execution stops at the next microstep");
      CHECK(vf_signaled(&envs[i].event_q_changed), "every environment is woken to see the new stop tag");
    }
#endif
  }
#ifdef FEDERATED
  CHECK(n_sent == (before ? 0 : 1), "the request is sent once");
  if (!before) {
    CHECK(spec_eq(sent_tag, max), "the proposal is the greatest current tag");
    for (int i = 0; i < NE; i++)
      if (send_result == 0)
        CHECK(spec_cmp(envs[i].barrier.horizon, spec_cmp(max, envs[i].current_tag) > 0 ? max : spec_tag(envs[i].current_tag.time, envs[i].current_tag.microstep + 1)) <= 0 ||
              spec_cmp(envs[i].stop_tag, max) <= 0, "no environment passes the proposal");
  }
#endif
#else
  lf_request_stop();
  CHECK(spec_cmp(env->stop_tag, b_stop) <= 0, "the stop tag never increases");
  CHECK(spec_cmp(env->stop_tag, b_cur) > 0 || spec_eq(env->stop_tag, b_stop), "the stop tag is after the current tag");
  CHECK(spec_cmp(env->stop_tag, spec_tag(b_cur.time, b_cur.microstep + 1)) <= 0, "execution stops at the next microstep");
#endif
  COVER("request");
}
