/* P03: grants are monotone, recorded as sent, and re-evaluated downstream.
 * Real code: core/federated/RTI/rti_remote.c, rti_common.c, core/federated/network/net_util.c */
#include "vf.h"
#ifdef VF_TOP
/* linked in after the callees' contracts were applied: the outermost calls reach the real, recursive functions */
#include "rti_remote.h"
void top_notify_provisional_tag_advance_grant(scheduling_node_t* e, tag_t t) { notify_provisional_tag_advance_grant(e, t); }
void top_notify_downstream_advance_grant_if_safe(scheduling_node_t* e, bool v[]) { notify_downstream_advance_grant_if_safe(e, v); }
#else
#include "rti_env.h"
#include "core/utils/pqueue_base.c"
#include "core/utils/pqueue_tag.c"

static bool g_check;
static tag_t g_tag;
static bool lt_seen[NN];
static bool post_wait[NN];
static int sent_n[NN];
static bool sent_prov[NN];
static tag_t sent_tag[NN];
static int p_state[NN];
static tag_t p_tag[NN], p_ptag[NN];
static bool allow_upstream;
/* the record and the state of a federate, as they are when bytes go to it */
static void on_write(int fd, const unsigned char* b, size_t n) {
  int i = fd_index(fd);
  CHECK(i < NN, "a grant goes to a federate's socket");
  if (i >= NN) return;
  CHECK(n == 13, "a grant message is 13 bytes");
  bool prov = b[0] == MSG_TYPE_PROVISIONAL_TAG_ADVANCE_GRANT;
  CHECK(prov || b[0] == MSG_TYPE_TAG_ADVANCE_GRANT, "a grant carries its message type");
  tag_t t = le_tag(b + 1);
  CHECK(nodes[i]->state == GRANTED, "nothing is sent to a federate that is not connected or not started");
  CHECK(spec_cmp(t, nodes[i]->last_granted) > 0, "every grant exceeds every earlier final grant");
  CHECK(prov ? spec_cmp(t, nodes[i]->last_provisionally_granted) > 0
             : spec_cmp(t, nodes[i]->last_provisionally_granted) >= 0,
        "a provisional grant exceeds, a final grant is not below, every earlier provisional grant");
  sent_n[i]++;
  sent_prov[i] = prov;
  sent_tag[i] = t;
}
static void vf_on_lock(void* m) {}
/* while waiting for the start, other threads may send to this federate: its grant record may move forward, it may leave */
static bool waited;
static void vf_wait_effect(lf_cond_t* c) {
  waited = true;
  for (int i = 0; i < NN; i++) {
    if (nodes[i]->state == PENDING) {
      nodes[i]->state = nd_bool() ? GRANTED : NOT_CONNECTED;
      tag_t a = nd_prog_tag(), p = nd_prog_tag();
      if (spec_cmp(a, nodes[i]->last_granted) > 0) nodes[i]->last_granted = a;
      if (spec_cmp(p, nodes[i]->last_provisionally_granted) > 0) nodes[i]->last_provisionally_granted = p;
      b_tag[i] = nodes[i]->last_granted;
      b_ptag[i] = nodes[i]->last_provisionally_granted;
      b_state[i] = nodes[i]->state;
    }
  }
}
static void post(int i, bool prov, tag_t tag) {
  scheduling_node_t* e = nodes[i];
  bool fwd = spec_cmp(tag, b_tag[i]) > 0 && (prov ? spec_cmp(tag, b_ptag[i]) > 0 : spec_cmp(tag, b_ptag[i]) >= 0);
  if (b_state[i] == GRANTED && fwd) {
    CHECK(sent_n[i] == 1 || write_failed_once, "a grant that moves forward is sent");
  } else
    CHECK(sent_n[i] == 0, "a grant that does not move forward or has no addressee is not sent");
  if (sent_n[i] == 1) {
    CHECK(sent_prov[i] == prov && spec_eq(sent_tag[i], tag), "the grant sent is the grant decided");
    CHECK(spec_eq(prov ? e->last_provisionally_granted : e->last_granted, tag), "the recorded grant is the one on the wire");
    CHECK(spec_eq(prov ? e->last_granted : e->last_provisionally_granted, prov ? b_tag[i] : b_ptag[i]),
          "the other grant record is unchanged");
    CHECK(e->state == GRANTED, "the addressee stays connected");
  } else {
    CHECK(spec_eq(e->last_granted, b_tag[i]) && spec_eq(e->last_provisionally_granted, b_ptag[i]),
          "nothing is recorded unless it was sent");
    CHECK(e->state == b_state[i] || (write_failed_once && e->state == NOT_CONNECTED), "only a failed send disconnects");
  }
  CHECK(spec_eq(e->completed, b_comp[i]) && next_same(i), "granting does not alter reported progress");
}
static void begin(void) {
  rti_setup();
  may_fail_write = true;
  lf_mutex_lock(&rti_mutex);
  for (int i = 1; i < NN; i++) ASSUME(b_state[i] != PENDING || allow_upstream);
}
void h_tag(void) {
  begin();
  tag_t t = nd_prog_tag();
  notify_tag_advance_grant(nodes[0], t);
  post(0, false, t);
  for (int i = 1; i < NN; i++) CHECK(fed_same(i) && sent_n[i] == 0, "no other federate is affected");
  COVER("tag");
  if (sent_n[0]) COVER("tag sent");
  if (waited) COVER("waited");
}
void h_ptag(void) {
  begin();
  nodes[0]->num_upstream = b_nup[0] = 0;
  tag_t t = nd_prog_tag();
  notify_provisional_tag_advance_grant(nodes[0], t);
  post(0, true, t);
  for (int i = 1; i < NN; i++) CHECK(fed_same(i) && sent_n[i] == 0, "no other federate is affected");
  COVER("ptag");
  if (sent_n[0]) COVER("ptag sent");
}
#ifdef VF_ABSTRACT
/* STUB: in the proofs of callers: earliest_future_incoming_message_tag, eimt_strict by the value of their specification (P02),
 * notify_advance_grant_if_safe by a record that it happened with the caller's updates in place */
tag_t abs_earliest_future_incoming_message_tag(scheduling_node_t* e) { return SEL(s_eimt, e->id); }
tag_t abs_eimt_strict(scheduling_node_t* e) { return SEL(s_strict, e->id); }
/* STUB: at its recursive calls, notify_provisional_tag_advance_grant is known by its own contract (the one h_ptag_up proves) */
static bool up_contract_ok(int i, bool prov, tag_t t) {
  return prov ? spec_cmp(s_eimt[i], t) >= 0 && spec_cmp(s_strict[i], t) > 0 : spec_cmp(s_eimt[i], t) > 0;
}
static bool must_prov[NN];
void abs_notify_provisional_tag_advance_grant(scheduling_node_t* e, tag_t t) {
  for (int i = 0; i < NN; i++) {
    bool prov = nd_bool(), self = e->id == i;
    if (self) prov = true;
    bool fwd = nodes[i]->state == GRANTED && spec_cmp(t, nodes[i]->last_granted) > 0 &&
               (prov ? spec_cmp(t, nodes[i]->last_provisionally_granted) > 0
                     : spec_cmp(t, nodes[i]->last_provisionally_granted) >= 0);
    if (!fwd) continue;
    if (self) {
      CHECK(up_contract_ok(i, true, t), "upstream provisional grant only if nothing earlier can arrive");
      if (may_fail_write && nd_bool()) {
        write_failed_once = true;
        nodes[i]->state = NOT_CONNECTED;
        continue;
      }
    } else if (!nd_bool() || !up_contract_ok(i, prov, t))
      continue;
    if (prov) nodes[i]->last_provisionally_granted = t;
    else nodes[i]->last_granted = t;
    sent_n[i]++;
    sent_prov[i] = prov;
    sent_tag[i] = t;
  }
}
/* STUB: in h_ptag_up, notify_tag_advance_grant is known by its contract (proved by h_tag) */
void abs_notify_tag_advance_grant(scheduling_node_t* e, tag_t t) {
  int i = e->id;
  if (nodes[i]->state != GRANTED || spec_cmp(t, nodes[i]->last_granted) <= 0 ||
      spec_cmp(t, nodes[i]->last_provisionally_granted) < 0)
    return;
  if (may_fail_write && nd_bool()) {
    write_failed_once = true;
    nodes[i]->state = NOT_CONNECTED;
    return;
  }
  nodes[i]->last_granted = t;
  sent_n[i]++;
  sent_prov[i] = false;
  sent_tag[i] = t;
}
/* the recursion is replaced by the contract, this call is not */
void top_notify_provisional_tag_advance_grant(scheduling_node_t* e, tag_t t);
#define NOTIFY_PROVISIONAL top_notify_provisional_tag_advance_grant
#else
#define NOTIFY_PROVISIONAL notify_provisional_tag_advance_grant
#endif
/* the grants passed on upstream together with a provisional grant obey the grant rule */
void h_ptag_up(void) {
  allow_upstream = true;
  begin();
  may_fail_write = nd_bool();
  for (int i = 0; i < NN; i++) {
    ASSUME(b_state[i] != PENDING);
#ifdef VF_ABSTRACT
    s_eimt[i] = nd_tag();
    s_strict[i] = nd_tag();
#else
    pool_delays(i);
#endif
  }
#ifndef VF_ABSTRACT
  spec_rule(-1);
#endif
  tag_t t = nd_prog_tag();
  NOTIFY_PROVISIONAL(nodes[0], t);
  for (int i = 0; i < NN; i++) {
    CHECK(sent_n[i] == 0 || spec_eq(sent_tag[i], t), "only the given tag is granted");
    if (i > 0 && sent_n[i]) {
      if (sent_prov[i])
        CHECK(spec_cmp(s_eimt[i], t) >= 0 && spec_cmp(s_strict[i], t) > 0, "upstream provisional grant only if nothing earlier can arrive");
      else
        CHECK(spec_cmp(s_eimt[i], t) > 0, "upstream final grant only if nothing at or before it can arrive");
    }
    if (i > 0 && sent_n[i] == 0 && sent_n[0] && !write_failed_once && b_state[i] != NOT_CONNECTED) {
      bool up = false;
      for (int k = 0; k < NN; k++) up = up || (k < b_nup[0] && b_up[0][k] == i);
      tag_t e = s_eimt[i];
      CHECK(!(up && spec_cmp(e, t) > 0 && spec_cmp(t, b_tag[i]) > 0 && spec_cmp(t, b_ptag[i]) >= 0),
            "upstream federate that can safely advance is granted too");
      CHECK(!(up && spec_eq(e, t) && spec_cmp(s_strict[i], t) > 0 && spec_cmp(t, b_tag[i]) > 0 && spec_cmp(t, b_ptag[i]) > 0),
            "upstream federate that can provisionally advance is granted too");
    }
    CHECK(sent_n[i] > 0 || (spec_eq(nodes[i]->last_granted, b_tag[i]) && spec_eq(nodes[i]->last_provisionally_granted, b_ptag[i])),
          "nothing is recorded unless it was sent");
  }
  COVER("ptag_up");
  if (NN > 1 && sent_n[1]) COVER("upstream grant sent");
}

/* --- re-evaluation downstream */
static bool evaluated[NN];
static bool reach[NN];
static bool tag_updated_first = true;
static tag_t new_completed, new_next;
static bool expect_completed, expect_next;
static void note_eval(scheduling_node_t* e) {
  evaluated[e->id] = true;
  if (expect_completed) CHECK(spec_eq(nodes[0]->completed, new_completed), "progress is recorded before grants are re-evaluated");
  if (expect_next) CHECK(spec_eq(nodes[0]->next_event, new_next), "the next event is recorded before grants are re-evaluated");
  CHECK26(vf_lock_total > 0, "grants are re-evaluated while holding the lock");
}
#ifdef VF_ABSTRACT
void abs_notify_advance_grant_if_safe(scheduling_node_t* e) { note_eval(e); }
#endif
/* STUB: at its recursive calls and in its callers, notify_downstream_advance_grant_if_safe is known by its contract
 * (proved by h_downstream): visited grows by a set that contains e, is closed under "downstream of" up to what was visited
 * before, and whose members other than e were re-evaluated */
static bool downstream_contract(int e, const bool* v0, const bool* v1, const bool* ev0, const bool* ev1) {
  bool ok = v1[e];
  for (int x = 0; x < NN; x++) {
    if (v0[x] && !v1[x]) ok = false;
    if (ev0[x] && !ev1[x]) ok = false;
    if (ev1[x] && !ev0[x] && !(v1[x] && (!v0[x] || x == e))) ok = false;
    if ((v1[x] && !v0[x]) || x == e) {
      if (x != e && !ev1[x]) ok = false;
      for (int k = 0; k < NN; k++)
        if (k < SEL(b_ndn, x) && !v1[b_dn[x][k]]) ok = false;
    }
  }
  return ok;
}
#ifdef VF_ABSTRACT
void abs_notify_downstream_advance_grant_if_safe(scheduling_node_t* e, bool visited[]) {
  bool v1[NN], ev1[NN];
  for (int i = 0; i < NN; i++) {
    v1[i] = nd_bool();
    ev1[i] = nd_bool();
  }
  if (expect_completed) CHECK(spec_eq(nodes[0]->completed, new_completed), "progress is recorded before grants are re-evaluated");
  if (expect_next) CHECK(spec_eq(nodes[0]->next_event, new_next), "the next event is recorded before grants are re-evaluated");
  CHECK26(vf_lock_total > 0, "grants are re-evaluated while holding the lock");
  ASSUME(downstream_contract(e->id, visited, v1, evaluated, ev1));
  for (int i = 0; i < NN; i++) {
    visited[i] = v1[i];
    evaluated[i] = ev1[i];
  }
}
void top_notify_downstream_advance_grant_if_safe(scheduling_node_t* e, bool v[]);
#define NOTIFY_DOWNSTREAM top_notify_downstream_advance_grant_if_safe
#else
#define NOTIFY_DOWNSTREAM notify_downstream_advance_grant_if_safe
#endif
void h_downstream(void) {
  rti_setup();
  lf_mutex_lock(&rti_mutex);
  bool v0[NN], visited[NN], ev0[NN];
  for (int i = 0; i < NN; i++) {
    v0[i] = visited[i] = nd_bool();
    evaluated[i] = ev0[i] = nd_bool();
  }
  int e = (int)nd_range(0, NN - 1);
  NOTIFY_DOWNSTREAM(nodes[e], visited);
  CHECK(downstream_contract(e, v0, visited, ev0, evaluated), "every federate reachable downstream is visited and re-evaluated");
  for (int i = 0; i < NN; i++) CHECK(fed_same(i), "a traversal changes no record itself");
  COVER("downstream");
}
static void reachable(void) {
  for (int k = 0; k < NN; k++)
    if (k < b_ndn[0]) reach[b_dn[0][k]] = true;
  for (int r = 0; r < NN; r++)
    for (int i = 0; i < NN; i++)
      if (reach[i])
        for (int k = 0; k < NN; k++)
          if (k < b_ndn[i]) reach[b_dn[i][k]] = true;
}
static void check_reach(void) {
  for (int i = 1; i < NN; i++) CHECK(IMPLIES(reach[i], evaluated[i]), "every transitive downstream federate is re-evaluated");
}
void h_next(void) {
  rti_setup();
  lf_mutex_lock(&rti_mutex);
  reachable();
  new_next = nd_prog_tag();
  expect_next = true;
  update_scheduling_node_next_event_tag_locked(nodes[0], new_next);
  check_reach();
  CHECK(spec_eq(nodes[0]->next_event, new_next), "the reported next event is recorded");
  if (b_nup[0] > 0) CHECK(evaluated[0], "the reporting federate itself is re-evaluated");
  else CHECK(evaluated[0] || spec_eq(nodes[0]->last_granted, new_next), "a federate without upstream is free to advance");
  CHECK(spec_eq(nodes[0]->completed, b_comp[0]), "the completed tag is unchanged");
  for (int i = 1; i < NN; i++) CHECK(node_same(i) && spec_eq(nodes[i]->next_event, b_next[i]), "a progress report updates only the reporting federate's record");
  CHECK26(vf_lock_total == 1, "the lock is still held");
  COVER("next");
}
void h_completed(void) {
  rti_setup();
  reachable();
  new_completed = nd_prog_tag();
  expect_completed = true;
  _logical_tag_complete(nodes[0], new_completed);
  check_reach();
  CHECK(spec_eq(nodes[0]->completed, new_completed), "the reported completed tag is recorded");
  CHECK(spec_eq(nodes[0]->next_event, b_next[0]) && spec_eq(nodes[0]->last_granted, b_tag[0]), "nothing else of the federate's record changes");
  for (int i = 1; i < NN; i++) CHECK(fed_same(i), "a progress report updates only the reporting federate's record");
  CHECK26(vf_lock_total == 0, "the lock is released");
  COVER("completed");
}
#endif
