/* P05 (and P08, P26 for these handlers): the federation-wide stop.
 * Real code: core/federated/RTI/rti_remote.c handle_stop_request_message, handle_stop_request_reply,
 * mark_federate_requesting_stop, broadcast_stop_time_to_federates_locked, handle_federate_resign, handle_federate_failed */
#include "vf.h"
#define MAXW 8
#include "rti_env.h"
#include "core/utils/pqueue_base.c"
#include "core/utils/pqueue_tag.c"
static int asked[NN], granted[NN];
static tag_t asked_tag[NN], granted_tag[NN];
static bool b_inprog, b_granted;
static int h_lock;
static void on_write(int fd, const unsigned char* b, size_t n) {
  int i = fd_index(fd);
  CHECK(i < NN, "stop messages go to federates' sockets");
  if (i >= NN) return;
  CHECK(nodes[i]->state != NOT_CONNECTED, "nothing is sent to a federate that is not connected");
  CHECK(b[0] == MSG_TYPE_STOP_REQUEST || b[0] == MSG_TYPE_STOP_GRANTED, "only stop messages are sent");
  CHECK(n == 13, "a stop message is 13 bytes");
  tag_t t = le_tag(b + 1);
  if (b[0] == MSG_TYPE_STOP_REQUEST) {
    CHECK(!stop_granted_already_sent_to_federates && granted[i] == 0, "no federate is asked after the decision");
    asked[i]++;
    asked_tag[i] = t;
  } else {
    granted[i]++;
    granted_tag[i] = t;
  }
}
static void vf_on_lock(void* m) {}
static void vf_wait_effect(lf_cond_t* c) {}
static int done(int i) { return FED(i)->requested_stop; }
static int n_done(void) {
  int k = 0;
  for (int i = 0; i < NN; i++) k += done(i);
  return k;
}
/* reachable coordinator states: the count matches, the announcement was made exactly if everybody is accounted for, and
 * as soon as a stop is in progress everybody who is not connected is accounted for */
static bool inv(void) {
  bool all = true;
  for (int i = 0; i < NN; i++) {
    all = all && done(i);
    if (rti.stop_in_progress && nodes[i]->state == NOT_CONNECTED && !done(i)) return false;
  }
  if (rti.base.num_scheduling_nodes_handling_stop != n_done()) return false;
  if (stop_granted_already_sent_to_federates != all) return false;
  if (n_done() > 0 && !all && !rti.stop_in_progress) return false;
  if (n_done() == 0 && rti.stop_in_progress) return false;
  return true;
}
static tag_t prop;
static void begin(int len) {
  rti_setup();
  nodes[0]->state = b_state[0] = GRANTED;
  rti.stop_in_progress = b_inprog = nd_bool();
  stop_granted_already_sent_to_federates = b_granted = nd_bool();
  ASSUME(inv());
  for (int i = 0; i < len; i++) in_b[i] = nd_u8();
  prop = le_tag(in_b);
  in_fd = FD0;
  in_len = len;
  h_lock = vf_lock_total;
}
/* the announcement, if it was made just now */
static void post_announce(tag_t m) {
  bool now = stop_granted_already_sent_to_federates && !b_granted;
  for (int i = 0; i < NN; i++) {
    CHECK(granted[i] == (now && nodes[i]->state != NOT_CONNECTED ? 1 : 0), "the decision is announced exactly once to every connected federate");
    if (granted[i]) {
      CHECK(spec_eq(granted_tag[i], m), "everyone is told the same stop tag, the maximum of all proposals");
      CHECK(spec_cmp(nodes[i]->next_event, m) <= 0, "no pending tag exceeds the announced stop tag");
    }
  }
  CHECK(inv(), "answers are counted once and the decision is announced as soon as every connected federate has answered");
  CHECK26(vf_lock_total == 0, "the lock is released on every path");
}
static void post_frame(void) {
  for (int i = 0; i < NN; i++) {
    CHECK(spec_eq(nodes[i]->completed, b_comp[i]) && spec_eq(nodes[i]->last_granted, b_tag[i]) && spec_eq(nodes[i]->last_provisionally_granted, b_ptag[i]) &&
              nodes[i]->state == b_state[i],
          "a stop request changes no grant, no reported progress and no connection");
    CHECK(granted[i] || spec_eq(nodes[i]->next_event, b_next[i]), "a pending tag changes only with the announcement");
    CHECK(done(i) == b_req[i] || i == 0 || nodes[i]->state == NOT_CONNECTED, "a federate answers only for itself");
  }
}
void h_request(void) {
  begin(12);
  handle_stop_request_message(FED(0));
  tag_t m = b_req[0] ? b_max_stop : spec_cmp(prop, b_max_stop) > 0 ? prop : b_max_stop;
  CHECK(in_pos == 12, "the whole request is read");
  CHECK(spec_eq(rti.base.max_stop_tag, m), "the stop tag is the maximum of all proposed tags");
  CHECK(done(0), "the requester is accounted for");
  for (int i = 0; i < NN; i++) {
    bool ask = !b_req[0] && !b_inprog && !b_granted && i != 0 && b_state[i] != NOT_CONNECTED && !b_req[i];
    CHECK(asked[i] == (ask ? 1 : 0), "every other connected federate is asked exactly once, by the first request");
    if (asked[i]) CHECK(spec_eq(asked_tag[i], m), "the question carries the proposed tag");
  }
  post_announce(m);
  post_frame();
  COVER("request");
  if (asked[1]) COVER("asked");
  if (granted[1]) COVER("announced");
}
void h_reply(void) {
  begin(12);
  handle_stop_request_reply(FED(0));
  tag_t m = spec_cmp(prop, b_max_stop) > 0 ? prop : b_max_stop;
  CHECK(in_pos == 12, "the whole answer is read");
  CHECK(b_granted || spec_eq(rti.base.max_stop_tag, m), "the stop tag is the maximum of all proposed tags");
  CHECK(done(0), "the answer is counted");
  for (int i = 0; i < NN; i++) CHECK(asked[i] == 0, "an answer asks nobody");
  ASSUME(rti.stop_in_progress); /* an answer follows a question */
  post_announce(m);
  post_frame();
  COVER("reply");
  if (granted[1]) COVER("announced");
}
/* departure: P08 */
static int n_eval;
static bool eval_ok = true;
#ifdef VF_ABSTRACT
/* STUB: notify_downstream_advance_grant_if_safe by its contract (P03_downstream_traversal): re-evaluates everything downstream */
void abs_notify_downstream_advance_grant_if_safe(scheduling_node_t* e, bool visited[]) {
  n_eval++;
  CHECK(e == nodes[0], "the federates downstream of the departed one are re-evaluated");
  CHECK(nodes[0]->state == NOT_CONNECTED && spec_eq(nodes[0]->next_event, FOREVER_TAG), "the departure is recorded before grants are re-evaluated");
  for (int i = 0; i < NN; i++) CHECK(!visited[i], "every downstream federate is considered");
  CHECK26(vf_lock_total > 0, "grants are re-evaluated while holding the lock");
}
#else
static bool traversal_seen(void) { return true; }
#endif
static void depart(bool failed) {
  begin(0);
#ifndef VF_ABSTRACT
  for (int i = 0; i < NN; i++) nodes[i]->num_downstream = b_ndn[i] = 0;
#endif
  may_fail_read = true;
  max_reads = 2;
  _lf_federate_reports_error = false;
  if (failed) handle_federate_failed(FED(0));
  else handle_federate_resign(FED(0));
  CHECK(nodes[0]->state == NOT_CONNECTED, "a departed federate is not connected");
  CHECK(spec_eq(nodes[0]->next_event, FOREVER_TAG), "a departed federate has no pending tag");
  CHECK(closed_n[0] == 1 && shut_n[0] >= 1, "its socket is shut down and closed once");
  CHECK(_lf_federate_reports_error == failed, "a reported failure is remembered");
#ifdef VF_ABSTRACT
  CHECK(n_eval == 1, "the federates downstream of the departed one are re-evaluated");
#endif
  for (int i = 1; i < NN; i++) {
    CHECK(closed_n[i] == 0 && shut_n[i] == 0, "no other federate is disconnected");
    CHECK(node_same(i) && (granted[i] || spec_eq(nodes[i]->next_event, b_next[i])), "no other federate's record changes");
    CHECK(asked[i] == 0, "a departure asks nobody");
  }
  CHECK(spec_eq(rti.base.max_stop_tag, b_max_stop), "a departure proposes no stop tag");
  post_announce(b_max_stop);
  COVER("depart");
  if (granted[1]) COVER("announced");
}
void h_resign(void) { depart(false); }
void h_failed(void) { depart(true); }
