/* P02: the grant rule. Real code: core/federated/RTI/rti_common.c, core/tag.c. */
#include "vf.h"
#include "vf_env_min.h"
#include "rti_common.h"
#include "tag_spec.h"
#include "rti_pool.h"

#include "core/tag.c"
#include "core/federated/RTI/rti_common.c"

/* STUB: notify_tag_advance_grant, notify_provisional_tag_advance_grant: record the call (their own contract is P03's) */
static tag_advance_grant_t sent;
static int n_sent;
static scheduling_node_t* sent_to;
void notify_tag_advance_grant(scheduling_node_t* e, tag_t tag) {
  sent.tag = tag;
  sent.is_provisional = false;
  sent_to = e;
  n_sent++;
}
void notify_provisional_tag_advance_grant(scheduling_node_t* e, tag_t tag) {
  sent.tag = tag;
  sent.is_provisional = true;
  sent_to = e;
  n_sent++;
}
#ifdef VF_ABSTRACT
/* STUB: in the proofs of the callers, update_min_delays_upstream is known by its contract (P04): a cached result is left alone */
void abs_update_min_delays_upstream(scheduling_node_t* n) { CHECK(n->min_delays != NULL, "cached minimum delays are reused"); }
/* STUB: in the proofs of the callers, the callee's contract (proved by unit P02_eimt / P02_eimt_strict): the value of the
 * specification, and at most unreported next events are normalised */
static void abs_frame(void) {
  for (int i = 0; i < NN; i++)
    if (spec_eq(nodes[i]->next_event, NEVER_TAG) && nd_bool()) {
      nodes[i]->next_event.time = start_time;
      nodes[i]->next_event.microstep = 0;
    }
}
tag_t abs_earliest_future_incoming_message_tag(scheduling_node_t* e) {
  abs_frame();
  return SEL(s_eimt, e->id);
}
tag_t abs_eimt_strict(scheduling_node_t* e) {
  abs_frame();
  return SEL(s_strict, e->id);
}
tag_advance_grant_t abs_tag_advance_grant_if_safe(scheduling_node_t* e) {
  tag_advance_grant_t g;
  abs_frame();
  g.tag = nd_tag();
  g.is_provisional = nd_bool();
  ASSUME(grant_ok(e->id, g));
  return g;
}
#endif
static scheduling_node_t* setup(void) {
  start_time = nd_i64();
  ASSUME(start_time > NEVER && start_time < FOREVER);
  for (int i = 0; i < NN; i++) {
    pool_node(i);
    pool_delays(i);
  }
  common.scheduling_nodes = nodes;
  common.number_of_scheduling_nodes = NN;
  common.mutex = &the_mutex;
  rti_common = &common;
  spec_rule(0);
  return nodes[0];
}
void h_eimt(void) {
  scheduling_node_t* e = setup();
  tag_t r = earliest_future_incoming_message_tag(e);
  CHECK(spec_eq(r, s_eimt[0]), "earliest incoming tag is the minimum over all upstream nodes of next event plus path delay");
  CHECK(frame_ok(), "computing the earliest incoming tag changes no reported progress");
  COVER("eimt");
}
void h_strict(void) {
  eimt_known_by_contract = true;
  scheduling_node_t* e = setup();
  tag_t r = eimt_strict(e);
  CHECK(spec_eq(r, s_strict[0]), "strict earliest incoming tag ignores exactly the upstream nodes in zero-delay cycles");
  CHECK(frame_ok(), "computing the strict earliest incoming tag changes no reported progress");
  COVER("strict");
}
void h_grant(void) {
  eimt_known_by_contract = strict_known_by_contract = true;
  scheduling_node_t* e = setup();
  tag_advance_grant_t r = tag_advance_grant_if_safe(e);
  CHECK(grant_ok(0, r), "grant decision equals the grant rule");
  CHECK(frame_ok(), "deciding a grant changes no reported progress");
  COVER("grant");
}
void h_notify(void) {
  eimt_known_by_contract = strict_known_by_contract = true;
  scheduling_node_t* e = setup();
  n_sent = 0;
  sent.tag = NEVER_TAG;
  sent.is_provisional = false;
  notify_advance_grant_if_safe(e);
  CHECK(n_sent <= 1, "at most one grant per decision");
  CHECK(grant_ok(0, sent), "the grant decided is the grant notified");
  CHECK(!n_sent || sent_to == e, "the grant goes to the node it was decided for");
  COVER("notify");
  if (n_sent) COVER("sent");
}
