/* P15: what a reaction's outputs trigger.  Real code: core/reactor_common.c schedule_output_reactions, _lf_invoke_reaction.
 * At most NO outputs with at most NT triggers of at most NK reactions each, drawn from ND downstream reactions. */
#ifdef VF_TOP
/* linked in after the recursive calls were replaced by their contract: the outermost call reaches the real function */
struct environment_t;
struct reaction_t;
void schedule_output_reactions(struct environment_t* e, struct reaction_t* r, int w);
void top_schedule_output_reactions(struct environment_t* e, struct reaction_t* r, int w) { schedule_output_reactions(e, r, w); }
#else
#include "vf.h"
#define RT_HOOKS1 "P15_hooks.h"
#define RT_HOOKS2 "P15_hooks2.h"
#ifndef NT
#define NO 2
#define NT 1
#endif
#ifndef NK
#define NK 2
#endif
#ifndef ND
#define ND 3
#endif
#define VF_LOCKS 2
#define RT_OWN_CLOCK
#ifdef FEDERATED
#include "low_level_platform.h"
#include "lf_types.h"
#endif
#include "rt_env.h"
#ifdef FEDERATED
#include "federate.h"
federate_instance_t _fed;
#endif
static environment_t the_env;
static environment_t* env = &the_env;
static instant_t g_now;
int lf_clock_gettime(instant_t* t) {
  *t = g_now;
  return 0;
}
#ifndef LF_SINGLE_THREADED
static lf_mutex_t reactor_mutex;
static void vf_on_lock(void* m) {}
static void vf_wait_effect(lf_cond_t* c) {}
int lf_clock_cond_timedwait(lf_cond_t* c, instant_t t) { return 0; }
#else
int lf_clock_interruptable_sleep_until_locked(environment_t* e, instant_t t) { return 0; }
#endif
static reaction_t *r0, *ds[ND + 1]; /* the reaction that ran, what is downstream of it, and ds[ND] further downstream of ds[0] */
static int trig[ND + 1];
static bool active[ND + 1];
static self_base_t selfs[ND + 1];
static int wn;
static bool late_in;
static int which(reaction_t* r) {
  for (int i = 0; i <= ND; i++)
    if (r == ds[i]) return i;
  CHECK(0, "only connected reactions are triggered");
  return 0;
}
void vf_trigger_reaction(environment_t* e, reaction_t* r, int w) {
  CHECK(e == env && w == wn, "reactions are triggered in their environment by the same worker");
  int i = which(r);
  trig[i]++;
}
#ifdef MODAL_REACTORS
static reactor_mode_t modes[ND + 1];
bool vf_mode_is_active(reactor_mode_t* m) {
  for (int i = 0; i <= ND; i++)
    if (m == &modes[i]) return active[i];
  return true;
}
#endif
static bool ds_out, ds_out_body, ds_out_dl, ds_out_stp; /* does the reaction executed at once write its output */
static int n_body, n_dl, n_stp; /* at most one reaction runs at once: who it is */
static void* ran_self;
static void ran(void* self, int* n, bool out) {
  CHECK(ran_self == NULL || ran_self == self, "at most one reaction runs at once");
  ran_self = self;
  (*n)++;
  ds_out = out;
}
static void f_body(void* self) {
  self_base_t* b = (self_base_t*)self;
  CHECK(b->executing_reaction != NULL && b->executing_reaction->self == b, "the reactor knows which reaction it executes");
#ifndef LF_SINGLE_THREADED
  CHECK(vf_lock_total == (b->reactor_mutex ? 1 : 0), "a reaction runs with its reactor locked");
#endif
  ran(self, &n_body, ds_out_body);
}
static void f_dl(void* self) { ran(self, &n_dl, ds_out_dl); }
static void f_stp(void* self) { ran(self, &n_stp, ds_out_stp); }
#ifdef VF_ABSTRACT
/* STUB: at its recursive calls, schedule_output_reactions is known by its contract: the outputs of that reaction are dealt with */
void top_schedule_output_reactions(environment_t* e, reaction_t* r, int w);
static int again;
void abs_schedule_output_reactions(environment_t* e, reaction_t* r, int w) {
  CHECK(e == env && w == wn, "in the same environment by the same worker");
  again++;
  CHECK(n_body + n_dl + n_stp == again && r->self == ran_self, "outputs are dealt with after each run");
}
#else
#define top_schedule_output_reactions schedule_output_reactions
#endif
void h_output(void) {
  wn = (int)nd_range(-1, 7);
  env->current_tag = spec_tag(nd_i64(), nd_u32());
  ASSUME(env->current_tag.time >= 0 && env->current_tag.time < FOREVER / 4);
  g_now = nd_range(0, FOREVER / 2);
  r0 = (reaction_t*)vf_alloc(sizeof(reaction_t));
  for (int i = 0; i <= ND; i++) {
    ds[i] = (reaction_t*)vf_alloc(sizeof(reaction_t));
    ds[i]->status = inactive;
    ds[i]->num_outputs = 0;
    ds[i]->self = &selfs[i];
    ds[i]->function = f_body;
    ds[i]->deadline = nd_i64();
    ASSUME(ds[i]->deadline >= -1);
    ds[i]->deadline_violation_handler = nd_bool() ? f_dl : NULL;
    ds[i]->STP_handler = nd_bool() ? f_stp : NULL;
    ds[i]->is_STP_violated = false;
    ds[i]->last_enabling_reaction = nd_bool() ? r0 : NULL;
    ds[i]->mode = NULL;
    ds[i]->name = "r";
    active[i] = true;
#ifdef MODAL_REACTORS
    if (nd_bool()) ds[i]->mode = &modes[i];
    active[i] = ds[i]->mode == NULL || nd_bool();
#endif
    trig[i] = 0;
#ifndef LF_SINGLE_THREADED
    selfs[i].reactor_mutex = nd_bool() ? &reactor_mutex : NULL;
#endif
    selfs[i].executing_reaction = NULL;
  }
  n_body = n_dl = n_stp = 0;
  ran_self = NULL;
  ds_out = false;
  ds_out_body = nd_bool();
  ds_out_dl = nd_bool();
  ds_out_stp = nd_bool();
  ds[ND]->last_enabling_reaction = NULL;
#ifndef VF_ABSTRACT
  /* further downstream */
  trigger_t t1;
  reaction_t* l1[1] = {ds[ND]};
  trigger_t* ta1[1] = {&t1};
  trigger_t** tr1[1] = {ta1};
  int sz1[1] = {1};
  bool* op1[1] = {&ds_out};
  t1.reactions = l1;
  t1.number_of_reactions = 1;
  for (int i = 0; i < ND; i++) {
    ds[i]->num_outputs = 1;
    ds[i]->output_produced = op1;
    ds[i]->triggers = tr1;
    ds[i]->triggered_sizes = sz1;
  }
#endif
  /* outputs of the reaction */
  bool written[NO], has[NO];
  bool* op[NO];
  int sizes[NO];
  trigger_t tt[NO][NT];
  trigger_t* ta[NO][NT];
  trigger_t** tr[NO];
  reaction_t* lists[NO][NT][NK];
  bool S[ND];
  int nS = 0;
  for (int d = 0; d < ND; d++) S[d] = false;
  r0->num_outputs = (size_t)nd_range(0, NO);
  for (int i = 0; i < NO; i++) {
    written[i] = nd_bool();
    has[i] = nd_bool();
    op[i] = has[i] ? &written[i] : NULL;
    sizes[i] = (int)nd_range(0, NT);
    tr[i] = ta[i];
    for (int j = 0; j < NT; j++) {
      bool there = nd_bool();
      ta[i][j] = there ? &tt[i][j] : NULL;
      int n = tt[i][j].number_of_reactions = (int)nd_range(0, NK);
      tt[i][j].reactions = lists[i][j];
      for (int k = 0; k < NK; k++) {
        int d = (int)nd_range(0, ND);
        lists[i][j][k] = d == ND ? NULL : ds[d];
        if (d < ND && k < n && there && j < sizes[i] && has[i] && written[i] && (size_t)i < r0->num_outputs && !S[d]) {
          S[d] = true;
          nS++;
        }
      }
    }
  }
  r0->output_produced = op;
  r0->triggers = tr;
  r0->triggered_sizes = sizes;
  late_in = r0->is_STP_violated = nd_bool();
  top_schedule_output_reactions(env, r0, wn);
#ifndef LF_SINGLE_THREADED
  CHECK(vf_lock_total == 0, "every reactor is unlocked");
#endif
  for (int d = 0; d < ND; d++) {
    bool now = S[d] && nS == 1 && ds[d]->last_enabling_reaction == r0 && active[d] && !trig[d];
    bool missed = ds[d]->deadline >= 0 && (ds[d]->deadline == 0 || g_now > spec_time_add(env->current_tag.time, ds[d]->deadline));
    bool late = false;
#ifdef FEDERATED_DECENTRALIZED
    late = late_in && ds[d]->STP_handler != NULL;
#endif
    bool me = ran_self == &selfs[d];
    if (!S[d]) CHECK(!trig[d] && !me, "nothing is triggered that no written output reaches");
    else if (!now) {
      CHECK(trig[d] >= 1 || !active[d], "every reaction that a written output reaches is triggered");
      CHECK(!me, "only a reaction enabled by this one alone may run at once");
    } else {
      CHECK((me && n_body == 1) == (!missed && !late), "the body runs once, unless the deadline has passed or the message was late");
      CHECK((me && n_dl == 1) == (missed && ds[d]->deadline_violation_handler != NULL), "the deadline handler runs exactly if the deadline has passed");
      CHECK((me && n_stp == 1) == late, "the late-message handler runs exactly if the message was late");
      CHECK(!ds[d]->is_STP_violated, "lateness is dealt with");
    }
    CHECK(selfs[d].executing_reaction == NULL, "the reactor is idle again");
#ifdef FEDERATED_DECENTRALIZED
    if (S[d] && !now) CHECK(ds[d]->is_STP_violated == late_in, "lateness is passed on");
#endif
  }
#ifdef VF_ABSTRACT
  CHECK(again == n_body + n_dl + n_stp, "the outputs of a reaction that ran at once trigger what they reach");
#else
  CHECK((trig[ND] > 0) == ds_out, "the outputs of a reaction that ran at once trigger what they reach");
#endif
  CHECK(n_body <= 1 && n_dl <= 1 && n_stp <= 1 && ran_self != &selfs[ND], "further reactions wait for their turn");
  COVER("output");
}
#endif
