/* P24: enclaves in one process.  Real code: core/federated/RTI/rti_local.c, core/tag.c
 * STUB: update_scheduling_node_next_event_tag_locked, _logical_tag_complete: their contracts (P02, P03 decide the text of
 *       rti_common.c): they run without an enclave's lock, and may grant to any enclave through the real notify functions
 * STUB: while waiting, other threads may grant through the real notify function */
#include "vf.h"
#include "vf_env_min.h"
#ifndef NN
#define NN 2
#endif
#define VF_LOCKS 6
#include "low_level_platform.h"
#include "lf_types.h"
#include "environment.h"
#include "tag_spec.h"
#include "vf_lock.h"
#include "core/federated/RTI/rti_local.c"
#include "core/tag.c"
static environment_t envs[NN];
static enclave_info_t encl[NN];
static scheduling_node_t* nodes[NN];
static rti_local_t the_rti;
static lf_cond_t* cond_of[NN];
int _lf_get_environments(environment_t** e) { *e = envs; return NN; }
int lf_clock_gettime(instant_t* t) { *t = nd_range(0, FOREVER / 4); return 0; }
static int dn[NN];
int lf_get_downstream_of(int i, int** r) { *r = NULL; return dn[i]; }
int lf_get_upstream_of(int i, int** r) { *r = NULL; return dn[NN - 1 - i]; }
int lf_get_upstream_delay_of(int i, interval_t** r) { *r = NULL; return 0; }
static int n_init, n_common;
void initialize_scheduling_node(scheduling_node_t* e, uint16_t id) {
  e->id = id;
  e->completed = e->last_granted = e->last_provisionally_granted = e->next_event = NEVER_TAG;
  e->state = NOT_CONNECTED;
  n_init++;
}
void initialize_rti_common(rti_common_t* r) { n_common++; }
static tag_t nd_t(void) {
  tag_t t = {.time = nd_range(0, FOREVER - 1), .microstep = nd_u32()};
  ASSUME(t.microstep < UINT32_MAX);
  return t;
}
static int n_net, n_ltc, me, n_wait;
static tag_t asked, granted;
static bool has_grant;
static void some_grants(void) {
  for (int i = 0; i < NN; i++)
    if (nd_bool()) {
      tag_t g = nd_t(), o = nodes[i]->last_granted;
      notify_tag_advance_grant(nodes[i], g);
      if (i == me && spec_cmp(nodes[i]->last_granted, o) > 0) { has_grant = true; granted = g; }
    }
}
void update_scheduling_node_next_event_tag_locked(scheduling_node_t* e, tag_t t) {
  n_net++;
  CHECK(vf_holds(&rti_mutex) == 1 && vf_holds(&envs[me].mutex) == 0, "the coordinator works with its own lock and without the enclave's");
  CHECK(e == nodes[me] && spec_eq(t, asked), "the next event reported is the one asked for");
  e->next_event = t;
  if (e->num_upstream == 0) {
    e->last_granted = t;
    has_grant = true;
    granted = t;
    return;
  }
  some_grants();
}
void _logical_tag_complete(scheduling_node_t* e, tag_t t) {
  n_ltc++;
  CHECK(vf_lock_total == 0, "the coordinator works with its own lock and without the enclave's");
  CHECK(e == nodes[me] && spec_eq(t, asked), "the completed tag reported is the one completed");
  lf_mutex_lock(&rti_mutex);
  e->completed = t;
  some_grants();
  lf_mutex_unlock(&rti_mutex);
}
static void vf_on_lock(void* m) {}
static void vf_wait_effect(lf_cond_t* c) {
  CHECK(vf_holds(&rti_mutex) == 1 && vf_lock_total == 1, "waiting for a grant holds only the coordinator's lock");
  CHECK(c == &encl[me].next_event_condition, "an enclave waits for its own grants");
  CHECK(!has_grant, "an enclave does not wait for what it already has");
  n_wait++;
  some_grants();
  ASSUME(n_wait < 2 || has_grant); /* longer waits repeat the state */
}
static void setup(void) {
  for (int i = 0; i < NN; i++) {
    nodes[i] = &encl[i].base;
    envs[i].enclave_info = &encl[i];
    encl[i].env = &envs[i];
    nodes[i]->id = (uint16_t)i;
    nodes[i]->state = nd_bool() ? GRANTED : nd_bool() ? PENDING : NOT_CONNECTED;
    nodes[i]->last_granted = nd_bool() ? NEVER_TAG : nd_t();
    nodes[i]->last_provisionally_granted = nd_bool() ? NEVER_TAG : nd_t();
    nodes[i]->next_event = nd_bool() ? NEVER_TAG : nd_bool() ? FOREVER_TAG : nd_t();
    nodes[i]->completed = nd_bool() ? NEVER_TAG : nd_t();
    nodes[i]->num_upstream = (uint16_t)nd_range(0, 2);
  }
  the_rti.base.scheduling_nodes = nodes;
  the_rti.base.number_of_scheduling_nodes = NN;
  the_rti.base.mutex = &rti_mutex;
  the_rti.base.tracing_enabled = nd_bool();
  rti_local = &the_rti;
  me = (int)nd_range(0, NN - 1);
  vf_n_signal = 0;
}
static bool same(scheduling_node_t* a, scheduling_node_t* b) {
  return spec_eq(a->completed, b->completed) && spec_eq(a->last_granted, b->last_granted) && spec_eq(a->last_provisionally_granted, b->last_provisionally_granted) &&
         spec_eq(a->next_event, b->next_event) && a->state == b->state && a->id == b->id && a->num_upstream == b->num_upstream;
}
void h_grant(void) {
  setup();
  tag_t t = nd_t();
  scheduling_node_t old[NN];
  for (int i = 0; i < NN; i++) old[i] = *nodes[i];
  bool p = nd_bool();
  bool fwd = nodes[me]->state != NOT_CONNECTED && spec_cmp(t, nodes[me]->last_granted) > 0 && spec_cmp(t, nodes[me]->last_provisionally_granted) >= 0;
  lf_mutex_lock(&rti_mutex);
  if (p) notify_provisional_tag_advance_grant(nodes[me], t);
  else notify_tag_advance_grant(nodes[me], t);
  CHECK(vf_holds(&rti_mutex) == 1 && vf_lock_total == 1, "locks are as before");
  CHECK(spec_cmp(nodes[me]->last_granted, old[me].last_granted) >= 0, "grants recorded for an enclave are monotone");
  if (!p && fwd) {
    CHECK(spec_eq(nodes[me]->last_granted, t), "a grant that moves forward is recorded");
    CHECK(vf_n_signal >= 1 && vf_signaled(&encl[me].next_event_condition), "whoever waits for the grant is woken");
    old[me].last_granted = t;
  }
  for (int i = 0; i < NN; i++) CHECK(same(nodes[i], &old[i]), "granting changes nothing else");
  COVER("grant");
}
void h_net(void) {
  setup();
  asked = nd_t();
  scheduling_node_t old = *nodes[me];
  if (nodes[me]->num_upstream == 0) ASSUME(spec_cmp(asked, old.last_granted) >= 0);
  lf_mutex_lock(&envs[me].mutex);
  has_grant = false;
  tag_t r = rti_next_event_tag_locked(&encl[me], asked);
  CHECK(vf_holds(&envs[me].mutex) == 1 && vf_lock_total == 1, "the enclave's lock is held again, and only that");
  CHECK(n_net == 1, "the coordinator learns the next event");
  CHECK(spec_eq(nodes[me]->next_event, asked), "the coordinator knows the next event");
  tag_t last = nodes[me]->last_granted;
  CHECK(spec_cmp(r, last) <= 0, "only a granted tag is returned");
  CHECK(spec_cmp(last, old.last_granted) >= 0, "grants recorded for an enclave are monotone");
  CHECK(spec_eq(last, has_grant ? granted : old.last_granted), "the enclave is granted only what the grant rule grants");
  if (spec_cmp(r, asked) < 0) CHECK(spec_cmp(r, old.last_granted) > 0, "a partial advance is new");
  CHECK(spec_eq(r, asked) || (has_grant && spec_eq(r, granted)), "the tag returned is the one asked for or the one granted");
  if (spec_cmp(old.last_granted, asked) >= 0) CHECK(n_wait == 0, "an enclave does not wait for what it already has");
  COVER("net");
}
void h_net1(void) {
  setup();
  the_rti.base.number_of_scheduling_nodes = 1;
  asked = nd_t();
  lf_mutex_lock(&envs[me].mutex);
  tag_t r = rti_next_event_tag_locked(&encl[me], asked);
  rti_logical_tag_complete_locked(&encl[me], asked);
  CHECK(spec_eq(r, asked) && n_wait == 0 && n_net == 0 && n_ltc == 0, "a single enclave needs no coordination");
  CHECK(vf_holds(&envs[me].mutex) == 1 && vf_lock_total == 1, "the enclave's lock is held again, and only that");
  COVER("net1");
}
void h_ltc(void) {
  setup();
  asked = nd_t();
  tag_t old = nodes[me]->next_event;
  lf_mutex_lock(&envs[me].mutex);
  rti_logical_tag_complete_locked(&encl[me], asked);
  CHECK(n_ltc == 1 && spec_eq(nodes[me]->completed, asked) && spec_eq(nodes[me]->next_event, old), "progress is reported once");
  CHECK(vf_holds(&envs[me].mutex) == 1 && vf_lock_total == 1, "the enclave's lock is held again, and only that");
  COVER("ltc");
}
void h_other(void) {
  setup();
  tag_t t = nd_t();
  int o = (int)nd_range(0, NN - 1);
  scheduling_node_t old[NN];
  for (int i = 0; i < NN; i++) old[i] = *nodes[i];
  lf_mutex_lock(&envs[o].mutex);
  rti_update_other_net_locked(&encl[me], &encl[o], t);
  CHECK(vf_holds(&envs[o].mutex) == 1 && vf_lock_total == 1, "the enclave's lock is held again, and only that");
  if (spec_cmp(t, old[o].next_event) < 0) old[o].next_event = t;
  for (int i = 0; i < NN; i++) CHECK(same(nodes[i], &old[i]), "a hand-over bounds the receiver's next event by its tag and changes nothing else");
  CHECK(n_wait == 0, "handing over does not wait");
  COVER("other");
}
void h_init(void) {
  for (int i = 0; i < NN; i++) dn[i] = (int)nd_range(0, 1);
  initialize_local_rti(envs, NN);
  CHECK(n_init == NN && n_common == 1 && rti_local->base.number_of_scheduling_nodes == NN && rti_local->base.mutex == &rti_mutex, "the coordinator knows every enclave");
  for (int i = 0; i < NN; i++) {
    enclave_info_t* e = (enclave_info_t*)rti_local->base.scheduling_nodes[i];
    CHECK(e->env == &envs[i] && envs[i].enclave_info == e && e->base.id == i && e->base.state == GRANTED, "every enclave is known to the coordinator and connected");
    CHECK(e->base.num_downstream == dn[i] && e->base.num_upstream == dn[NN - 1 - i], "the coordinator knows the topology");
    CHECK(spec_eq(e->base.last_granted, NEVER_TAG) && spec_eq(e->base.next_event, NEVER_TAG), "nothing is granted at the start");
  }
  COVER("init");
}
