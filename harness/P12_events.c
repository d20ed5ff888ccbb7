/* P12: what happens at a tag.  Real code: core/reactor_common.c _lf_pop_events, lf_recycle_event, lf_get_new_event,
 * _lf_initialize_timer, _lf_initialize_timers, _lf_trigger_startup_reactions, _lf_trigger_shutdown_reactions,
 * _lf_create_dummy_events.  The queue holds any number of events; each trigger has at most NR reactions. */
#include "vf.h"
#ifdef VF_SMALL /* first stage of the concrete search */
static long long small_i64(void) {
  int i = (int)nd_range(-1, 14);
  return i == 14 ? 9223372036854775807LL : i == -1 ? -9223372036854775807LL - 1 : i;
}
static unsigned small_u32(void) { return (unsigned)nd_range(0, 3); }
#define nd_i64 small_i64
#define nd_u32 small_u32
#endif
#define RT_HOOKS1 "P12_hooks.h"
#define RT_HOOKS2 "P12_hooks2.h"
#ifndef NR
#define NR 3
#endif
#define NSLOT 4
#define VF_LOCKS 2
#ifdef FEDERATED
#include "low_level_platform.h"
#include "lf_types.h"
#endif
#include "rt_env.h"
#ifdef FEDERATED
#include "federate.h"
federate_instance_t _fed;
#endif
static environment_t the_env;
static environment_t* env = &the_env;
static event_t* ev;
static trigger_t* trg;
static reaction_t *rs[NR], *rlist[NR];
static lf_token_t *tok, tok_obj;
static bool* slots[NSLOT];
static bool head_on, taken; /* an event is at the head; an event is out of the queue and not yet returned */
static bool dummy;
static int nr, present0;
static reaction_status_t st0[NR];
static bool act[NR], rdup;
static int did_trigger[NR], did_sched, did_template, did_done, did_requeue;
static int pops, recycles;
#ifndef NEV
#define NEV (NR == 2 ? 2 : 3)
#endif
static bool modes_first;
static tag_t head_tag, last_known0;
static bool refresh_ok;
#ifndef LF_SINGLE_THREADED
static void vf_on_lock(void* m) {}
static void vf_wait_effect(lf_cond_t* c) {}
int lf_clock_cond_timedwait(lf_cond_t* c, instant_t t) { return 0; }
#else
int lf_clock_interruptable_sleep_until_locked(environment_t* e, instant_t t) { return 0; }
#endif
/* STUB: the queue by its contract (P13): the earliest remaining event, any number of them, with any trigger, reactions and payload */
#ifdef MODAL_REACTORS
static reactor_mode_t a_mode, i_mode;
#endif
static int size_b, cap;
static void next_event(void) {
  head_on = nd_bool();
  head_tag = spec_tag(nd_i64(), nd_u32());
  ASSUME(spec_cmp(head_tag, env->current_tag) >= 0);
  if (recycles >= NEV) ASSUME(spec_cmp(head_tag, env->current_tag) > 0); /* bound: at most NEV events of the tag */
  size_b = env->is_present_fields_abbreviated_size;
  ASSUME(size_b < INT_MAX - 1); /* fewer than 2^31 events have the same tag */
  dummy = nd_bool();
  ev->base.tag = head_tag;
  ev->trigger = dummy ? NULL : trg;
  tok = nd_bool() ? &tok_obj : NULL;
  ev->token = tok;
  trg->number_of_reactions = nr = (int)nd_range(0, NR);
  trg->is_timer = nd_bool();
  trg->period = nd_i64();
  trg->status = (port_status_t)nd_range(0, 2);
#ifdef FEDERATED
  ev->intended_tag = spec_tag(nd_i64(), nd_u32());
  last_known0 = trg->last_known_status_tag = spec_tag(nd_i64(), nd_u32());
  trg->intended_tag = spec_tag(nd_i64(), nd_u32());
#endif
  for (int i = 0; i < NR; i++) {
    rs[i]->status = st0[i] = (reaction_status_t)nd_range(0, 2);
#ifdef FEDERATED_DECENTRALIZED
    rs[i]->is_STP_violated = false;
#endif
#ifdef MODAL_REACTORS
    act[i] = nd_bool();
    rs[i]->mode = act[i] ? (nd_bool() ? &a_mode : NULL) : &i_mode;
#else
    act[i] = true;
#endif
    did_trigger[i] = 0;
  }
  did_sched = did_template = did_done = 0;
}
pqueue_tag_element_t* vf_peek(pqueue_tag_t* q) {
  CHECK(q == env->event_q && !taken, "an event taken from the queue is dealt with before the next");
#ifdef MODAL_REACTORS
  CHECK(modes_first, "reactions of entered modes are triggered first");
#endif
  return head_on ? (pqueue_tag_element_t*)ev : NULL;
}
pqueue_tag_element_t* vf_pop(pqueue_tag_t* q) {
  if (q == env->recycle_q) return NULL;
  CHECK(q == env->event_q && head_on && !taken, "an event is there to be taken");
  CHECK(spec_eq(head_tag, env->current_tag), "only events of the current tag are taken");
  taken = true;
  head_on = false;
  return (pqueue_tag_element_t*)ev;
}
static event_t* q_ev;
static int n_queued;
static tag_t queued_tag;
static trigger_t* queued_trg;
int vf_insert(pqueue_tag_t* q, pqueue_tag_element_t* e) {
  if (q == env->recycle_q) {
    CHECK(!taken || e == (pqueue_tag_element_t*)ev, "the event taken is recycled");
    CHECK(((event_t*)e)->token == NULL && ((event_t*)e)->trigger == NULL, "a recycled event refers to nothing");
#ifdef FEDERATED_DECENTRALIZED
    CHECK(((event_t*)e)->intended_tag.time == NEVER, "a recycled event has no intended tag");
#endif
    if (!taken) return 0;
    if (dummy) {
      CHECK(!did_sched && !did_template && !did_done && !did_trigger[0] && !did_trigger[1] && !did_trigger[NR - 1], "a dummy event triggers nothing");
    } else {
      for (int i = 0; i < NR; i++) {
        CHECK(did_trigger[i] == (i < nr && st0[i] == inactive && act[i] ? 1 : 0), "every reaction of the trigger that is not queued yet is triggered once, if its mode is active");
      }
      CHECK(trg->status == present, "the trigger is present");
      CHECK(did_sched == (trg->is_timer && trg->period > 0 ? 1 : 0), "a periodic timer is queued again");
      if (!did_sched) CHECK(env->is_present_fields_abbreviated_size == size_b + 1 && (size_b >= cap || (port_status_t*)slots[size_b] == &trg->status), "the presence of an action is reset at the next tag");
      else CHECK(env->is_present_fields_abbreviated_size == size_b, "nothing else is recorded");
      CHECK(did_template == 1 && did_done == 1, "the payload becomes the trigger's and the queue's reference to it is given up");
    }
    taken = false;
    recycles++;
    next_event();
    return 0;
  }
  CHECK(q == env->event_q, "events go to the event queue");
  q_ev = (event_t*)e;
  queued_tag = e->tag;
  queued_trg = q_ev->trigger;
  n_queued++;
  return 0;
}
void vf_trigger_reaction(environment_t* e, reaction_t* r, int w) {
  CHECK(e == env && w == -1, "reactions are triggered in their environment");
  bool known = false;
  for (int i = 0; i < NR; i++)
    if (r == rs[i]) {
      did_trigger[i]++;
      CHECK(act[i], "reactions of inactive modes are not triggered");
      r->status = queued;
      known = true;
#ifdef FEDERATED_DECENTRALIZED
      if (taken) {
        bool late = ev->intended_tag.time != NEVER && spec_cmp(ev->intended_tag, env->current_tag) < 0;
        CHECK(r->is_STP_violated == late, "a reaction is marked as late exactly if its message was meant for an earlier tag");
        if (ev->intended_tag.time != NEVER) CHECK(spec_eq(trg->intended_tag, ev->intended_tag), "the reaction can see the tag the message was meant for");
        CHECK(spec_cmp(trg->last_known_status_tag, last_known0) >= 0, "what is known about the port only moves forward");
        if (late) CHECK(spec_cmp(trg->last_known_status_tag, env->current_tag) >= 0, "a port that received a late message is known up to the current tag");
      }
#endif
    }
  CHECK(known, "only reactions of the trigger are triggered");
}
trigger_handle_t vf_schedule_trigger(environment_t* e, trigger_t* t, interval_t d, lf_token_t* k) {
  CHECK(e == env && t == trg && taken && d == trg->period && k == NULL, "a periodic timer is queued again one period later");
  did_sched++;
  return 1;
}
void vf_replace_template(token_template_t* t, lf_token_t* k) {
  CHECK(taken && t == (token_template_t*)trg && k == tok && !did_done, "the event's payload replaces the trigger's");
  did_template++;
}
token_freed vf_done_using(lf_token_t* t) {
  CHECK(taken && t == tok && did_template == 1, "the queue's reference is given up after the trigger has taken its own");
  did_done++;
  return NOT_FREED;
}
#ifdef MODAL_REACTORS
bool vf_mode_is_active(reactor_mode_t* m) { return m != &i_mode; }
void vf_mode_triggered(environment_t* e) {
  CHECK(e == env && !modes_first, "once");
  modes_first = true;
}
static int ms, mh;
void vf_mode_startup(environment_t* e, reaction_t** startup, int ns, reaction_t** reset, int nr_, reactor_mode_state_t** st, int n) { ms++; }
void vf_mode_shutdown(environment_t* e, reaction_t** r, int n) { mh++; }
static event_t* susp;
static int n_susp;
void vf_add_suspended(event_t* e) {
  susp = e;
  n_susp++;
}
#endif
static mode_environment_t* no_modes;
static int size0;
static void setup(void) {
  env->current_tag = spec_tag(nd_i64(), nd_u32());
  ASSUME(env->current_tag.time >= 0 && env->current_tag.time < FOREVER / 4);
  env->stop_tag = spec_tag(nd_i64(), nd_u32());
  env->event_q = (pqueue_tag_t*)vf_alloc(1);
  env->recycle_q = (pqueue_tag_t*)vf_alloc(1);
  ev = (event_t*)vf_alloc(sizeof(event_t));
  trg = (trigger_t*)vf_alloc(sizeof(trigger_t));
  for (int i = 0; i < NR; i++) {
    rs[i] = (reaction_t*)vf_alloc(sizeof(reaction_t));
    rlist[i] = rs[i];
    rs[i]->mode = NULL;
  }
  trg->reactions = rlist;
  trg->mode = NULL;
  env->is_present_fields_abbreviated = slots;
  env->is_present_fields_size = cap = (int)nd_range(0, NSLOT);
  env->is_present_fields_abbreviated_size = size0 = (int)nd_range(0, NSLOT + 1);
  start_time = 0;
  taken = false;
  pops = recycles = 0;
  n_queued = 0;
  modes_first = false;
}
void h_pop(void) {
  setup();
  next_event();
  _lf_pop_events(env);
  CHECK(!taken, "every event taken was dealt with");
  CHECK(!head_on || spec_cmp(head_tag, env->current_tag) > 0, "no event of the current tag is left behind");
  CHECK(n_queued == 0, "taking events queues none directly");
  COVER("pop");
}
/* timers at the start */
void h_timer(void) {
  setup();
  next_event();
  head_on = false;
  trg->is_timer = true;
  interval_t offset = trg->offset = nd_i64(), period = trg->period;
  ASSUME(offset >= 0 && period >= 0);
  trg->mode = NULL;
  bool inactive_mode = false;
#ifdef MODAL_REACTORS
  inactive_mode = nd_bool();
  if (inactive_mode) trg->mode = &i_mode;
#endif
  for (int i = 0; i < NR; i++) act[i] = true;
  _lf_initialize_timer(env, trg);
  for (int i = 0; i < NR; i++)
    CHECK(did_trigger[i] == (i < nr && offset == 0 && !inactive_mode ? 1 : 0), "a timer without offset triggers its reactions at the start");
#ifdef MODAL_REACTORS
  if (inactive_mode) {
    CHECK(n_queued == 0 && n_susp == 1, "a timer of an inactive mode is suspended");
    CHECK(susp->trigger == trg && susp->base.tag.time == spec_time_add(env->current_tag.time, offset) && susp->base.tag.microstep == 0 && susp->token == NULL, "with its offset to go");
    COVER("suspended");
    return;
  }
#endif
  tag_t first = spec_tag(spec_time_add(env->current_tag.time, offset ? offset : period), 0);
  bool want = (offset || period) && spec_cmp(first, env->stop_tag) <= 0;
  CHECK(n_queued == want, "its next event is queued unless it has none before the stop tag");
  if (want) CHECK(spec_eq(queued_tag, first) && queued_trg == trg && q_ev->token == NULL, "after the offset, or after one period");
  COVER("timer");
}
/* startup and shutdown reactions */
void h_start_stop(void) {
  setup();
  next_event();
  int n = (int)nd_range(0, NR);
  bool in_mode[NR], null[NR];
  for (int i = 0; i < NR; i++) {
    null[i] = nd_bool();
    in_mode[i] = nd_bool();
    rlist[i] = null[i] ? NULL : rs[i];
    rs[i]->mode = in_mode[i] ? (reactor_mode_t*)vf_alloc(1) : NULL;
    act[i] = true;
  }
  env->modes = NULL;
#ifdef MODAL_REACTORS
  mode_environment_t me;
  bool has = nd_bool();
  if (has) env->modes = &me;
#endif
  bool down = nd_bool();
  env->startup_reactions = env->shutdown_reactions = NULL;
  env->startup_reactions_size = env->shutdown_reactions_size = 0;
  if (down) {
    env->shutdown_reactions = rlist;
    env->shutdown_reactions_size = n;
    _lf_trigger_shutdown_reactions(env);
  } else {
    env->startup_reactions = rlist;
    env->startup_reactions_size = n;
    _lf_trigger_startup_reactions(env);
  }
  for (int i = 0; i < NR; i++)
    CHECK(did_trigger[i] == (i < n && !null[i] && !in_mode[i] ? 1 : 0), "every startup (shutdown) reaction outside modes is triggered once");
#ifdef MODAL_REACTORS
  CHECK(ms == (has && !down) && mh == (has && down), "those inside modes are left to the modes");
#endif
  COVER("start stop");
}
