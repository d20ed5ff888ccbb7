/* P21, P22: what a federate does with grants, port knowledge and stop requests.  Real code: core/federated/federate.c, core/tag.c
 * STUB: read_from_socket_fail_on_error, write_to_socket_*: whole messages (P10), recorded; a write may fail where the caller continues
 * STUB: lf_set_stop_tag, _lf_increment_tag_barrier_locked, _lf_decrement_tag_barrier_locked: their contracts (P14)
 * STUB: while an environment's lock is free its current tag may advance, up to its barrier */
#include "vf.h"
#include "vf_env_min.h"
#ifndef NE
#define NE 3
#endif
#ifndef NP
#define NP 2
#endif
#define VF_LOCKS 6
#define _LF_FEDERATE_NAMES_COMMA_SEPARATED "a,b,c"
#include "low_level_platform.h"
#include "lf_types.h"
#include "environment.h"
#include "net_common.h"
#include "tag_spec.h"
#include "vf_lock.h"
#include "core/tag.c"
#define read_from_socket_fail_on_error real_read_fail
#define write_to_socket_fail_on_error real_write_fail
#define write_to_socket_close_on_error real_write_close
#include "core/federated/network/net_util.c"
#undef read_from_socket_fail_on_error
#undef write_to_socket_fail_on_error
#undef write_to_socket_close_on_error
extern lf_mutex_t lf_outbound_socket_mutex;
lf_mutex_t global_mutex;
bool lf_stop_requested, _lf_termination_executed;
int _lf_my_fed_id = 1;
static environment_t envs[NE];
static int num_envs = 1;
static bool going_on;
int _lf_get_environments(environment_t** e) {
  *e = envs;
  return num_envs;
}
static instant_t g_phys;
int lf_clock_gettime(instant_t* t) {
  *t = g_phys;
  return 0;
}
static unsigned char in_b[16], out_b[40];
static size_t out_n[2], in_n;
static int n_out, n_in;
static int out_fd[2];
static bool may_fail;
int read_from_socket_fail_on_error(int* s, size_t n, unsigned char* b, lf_mutex_t* m, char* f, ...) {
  n_in++;
  in_n = n;
  for (size_t k = 0; k < 16; k++)
    if (k < n) b[k] = in_b[k];
  return 0;
}
static int record(int* s, size_t n, unsigned char* b) {
  CHECK(vf_holds(&lf_outbound_socket_mutex), "messages are sent holding the lock of outgoing messages");
  if (may_fail && nd_bool()) {
    *s = -1;
    n_out = 3;
    return -1;
  }
  if (n_out < 2) {
    out_fd[n_out] = *s;
    out_n[n_out] = n;
  }
  if (n_out == 0)
    for (size_t k = 0; k < 40; k++)
      if (k < n) out_b[k] = b[k];
  n_out++;
  return 0;
}
void write_to_socket_fail_on_error(int* s, size_t n, unsigned char* b, lf_mutex_t* m, char* f, ...) { record(s, n, b); }
int write_to_socket_close_on_error(int* s, size_t n, unsigned char* b) { return record(s, n, b); }
/* wire format */
static void put_tag(unsigned char* b, tag_t t) {
  for (int k = 0; k < 8; k++) b[k] = (unsigned char)((uint64_t)t.time >> (8 * k));
  for (int k = 0; k < 4; k++) b[8 + k] = (unsigned char)(t.microstep >> (8 * k));
}
static tag_t get_tag(const unsigned char* b) {
  uint64_t t = 0;
  uint32_t m = 0;
  for (int k = 0; k < 8; k++) t |= (uint64_t)b[k] << (8 * k);
  for (int k = 0; k < 4; k++) m |= (uint32_t)b[8 + k] << (8 * k);
  return spec_tag((int64_t)t, m);
}
/* contracts of P14 */
static int n_up[NE], n_down[NE], n_stop[NE];
static tag_t bar[NE], stop_asked[NE];
static int idx(environment_t* e) {
  for (int i = 0; i < NE; i++)
    if (e == &envs[i] && i < num_envs) return i;
  CHECK(0, "only this federate's environments are touched");
  return 0;
}
void _lf_increment_tag_barrier_locked(environment_t* e, tag_t t) {
  int i = idx(e);
  CHECK(vf_holds(&e->mutex), "the barrier is raised holding the environment's lock");
  n_up[i]++;
  bar[i] = t;
  e->barrier.requestors++;
}
void _lf_decrement_tag_barrier_locked(environment_t* e) {
  int i = idx(e);
  CHECK(vf_holds(&e->mutex), "the barrier is released holding the environment's lock");
  n_down[i]++;
  e->barrier.requestors--;
}
void lf_set_stop_tag(environment_t* e, tag_t t) {
  int i = idx(e);
  CHECK(vf_holds(&e->mutex), "the stop tag is set holding the environment's lock");
  n_stop[i]++;
  stop_asked[i] = t;
  CHECK(spec_cmp(t, e->current_tag) > 0, "a stop tag is after the current tag");
  if (spec_cmp(t, e->stop_tag) < 0) e->stop_tag = t;
}
bool lf_is_tag_after_stop_tag(environment_t* e, tag_t t) { return spec_cmp(t, e->stop_tag) > 0; }
/* code-generated */
lf_action_base_t* _lf_action_table[NP];
interval_t _lf_action_delay_table[NP];
size_t _lf_action_table_size;
lf_action_base_t* _lf_zero_delay_cycle_action_table[NP];
size_t _lf_zero_delay_cycle_action_table_size;
reaction_t* networkInputReactions[1];
size_t numNetworkInputReactions;
reaction_t* port_absent_reaction[1];
size_t num_port_absent_reactions;
static event_t the_event;
static int n_dummy, n_ins;
static tag_t dummy_tag;
event_t* _lf_create_dummy_events(environment_t* e, tag_t t) {
  n_dummy++;
  the_event.base.tag = t;
  return &the_event;
}
static pqueue_tag_t evq;
int pqueue_tag_insert(pqueue_tag_t* q, pqueue_tag_element_t* e) {
  CHECK(q == &evq && e == &the_event.base, "the dummy event is queued");
  n_ins++;
  dummy_tag = e->tag;
  return 0;
}
#include "core/federated/federate.c"
static tag_t nd_t(void) {
  tag_t t = spec_tag(nd_i64(), nd_u32());
  ASSUME(t.time >= 0 && t.time < FOREVER / 4 && t.microstep < UINT_MAX - 8);
  return t;
}
static void vf_on_lock(void* m) {
  for (int i = 0; i < NE; i++)
    if (m == &envs[i].mutex && going_on && n_up[i] == 0) {
      tag_t t = nd_t();
      if (spec_cmp(t, envs[i].current_tag) > 0 && spec_cmp(t, envs[i].stop_tag) <= 0) envs[i].current_tag = t;
    }
}
static trigger_t trg[NP];
static lf_action_base_t act[NP];
static reaction_t rea[NP];
static reaction_t* rlist[NP][1];
static int zdc[NP];
static void vf_wait_effect(lf_cond_t* c) {
  CHECK(c == &lf_port_status_changed, "waits for port knowledge");
  max_level_allowed_to_advance = (int)nd_range(0, INT_MAX);
}
static void setup(void) {
  start_time = 0;
  for (int i = 0; i < NE; i++) {
    envs[i].current_tag = nd_t();
    envs[i].stop_tag = FOREVER_TAG;
    if (nd_bool()) {
      envs[i].stop_tag = nd_t();
      ASSUME(spec_cmp(envs[i].stop_tag, envs[i].current_tag) >= 0);
    }
    envs[i].barrier.requestors = 0;
    envs[i].event_q = &evq;
    n_up[i] = n_down[i] = n_stop[i] = 0;
  }
  _fed.socket_TCP_RTI = 10;
  lf_stop_requested = nd_bool();
  _fed.received_stop_request_from_rti = nd_bool();
  _fed.last_TAG = nd_bool() ? NEVER_TAG : nd_t();
  _fed.is_last_TAG_provisional = nd_bool();
  _fed.last_sent_LTC = nd_bool() ? NEVER_TAG : nd_t();
  envs[0].need_to_send_LTC = nd_bool();
  _lf_action_table_size = (size_t)nd_range(0, NP);
  _lf_zero_delay_cycle_action_table_size = (size_t)nd_range(0, NP);
  ASSUME(_lf_zero_delay_cycle_action_table_size <= _lf_action_table_size);
  for (int i = 0; i < NP; i++) {
    _lf_action_table[i] = &act[i];
    act[i].trigger = &trg[i];
    trg[i].last_known_status_tag = nd_bool() ? NEVER_TAG : nd_t();
    trg[i].is_physical = nd_bool();
    trg[i].reactions = rlist[i];
    rlist[i][0] = &rea[i];
    rea[i].index = (index_t)(((uint64_t)nd_u8() << 16) | nd_u16()); /* a small deadline above the level */
    _lf_action_delay_table[i] = nd_bool() ? -1 : nd_range(0, FOREVER);
    zdc[i] = i;
    _lf_zero_delay_cycle_action_table[i] = &act[i];
  }
  max_level_allowed_to_advance = (int)nd_range(0, INT_MAX);
  vf_n_broadcast = 0;
  n_out = n_in = n_dummy = n_ins = 0;
  g_phys = nd_range(0, FOREVER / 4);
}
/* --- P22 */
void h_stop_request(void) {
  setup();
  num_envs = (int)nd_range(1, NE);
  going_on = true;
  tag_t req = nd_t();
  put_tag(in_b, req);
  bool local = lf_stop_requested, again = _fed.received_stop_request_from_rti;
  handle_stop_request_message();
  CHECK(vf_lock_total == 0, "all locks are released");
  CHECK(n_in == 1 && in_n == 12, "the whole request is read");
  CHECK(lf_stop_requested, "the request is remembered");
  if (local || again) {
    CHECK(n_out == 0, "a stop request is answered at most once");
    for (int i = 0; i < NE; i++) CHECK(n_up[i] == 0, "environments are not held twice");
  } else {
    CHECK(_fed.received_stop_request_from_rti, "the request is remembered");
    CHECK(n_out == 1 && out_fd[0] == 10 && out_n[0] == 13 && out_b[0] == MSG_TYPE_STOP_REQUEST_REPLY, "a stop request is answered");
    tag_t t = get_tag(out_b + 1);
    CHECK(spec_cmp(t, req) >= 0, "the answer is at least the requested tag");
    for (int i = 0; i < NE; i++)
      if (i < num_envs) {
        CHECK(spec_cmp(t, envs[i].current_tag) > 0, "the answer is later than the current tag of every environment");
        CHECK(n_up[i] == 1 && n_down[i] == 0 && spec_cmp(bar[i], t) <= 0, "every environment is held at or before the tag offered");
        CHECK(spec_cmp(bar[i], envs[i].current_tag) > 0, "the hold is not in the past");
      } else
        CHECK(n_up[i] == 0, "nothing else is held");
  }
  for (int i = 0; i < NE; i++) CHECK(n_stop[i] == 0, "the stop tag is not set before it is agreed");
  COVER("request");
}
void h_stop_granted(void) {
  setup();
  num_envs = (int)nd_range(1, NE);
  going_on = true;
  tag_t g = nd_t(), stop0[NE];
  int held[NE];
  put_tag(in_b, g);
  for (int i = 0; i < NE; i++) {
    held[i] = envs[i].barrier.requestors = (int)nd_range(0, 2);
    stop0[i] = envs[i].stop_tag;
    ASSUME(spec_cmp(envs[i].current_tag, stop0[i]) < 0);
  }
  handle_stop_granted_message();
  CHECK(vf_lock_total == 0, "all locks are released");
  for (int i = 0; i < NE; i++)
    if (i < num_envs) {
      tag_t c = envs[i].current_tag;
      tag_t want = spec_cmp(g, c) > 0 ? g : spec_tag(c.time, c.microstep + 1);
      CHECK(n_stop[i] == 1 && spec_eq(stop_asked[i], want), "the stop tag is the granted one or, if that has passed, the next microstep");
      CHECK(n_down[i] == (held[i] ? 1 : 0), "the hold is released");
    } else
      CHECK(n_stop[i] == 0 && n_down[i] == 0, "nothing else is stopped");
  CHECK(vf_n_broadcast >= num_envs, "every environment is woken");
  COVER("granted");
}
void h_stop_send(void) {
  setup();
  tag_t t = nd_t();
  bool before = _fed.received_stop_request_from_rti;
  if (nd_bool()) _fed.socket_TCP_RTI = -1;
  bool connected = _fed.socket_TCP_RTI >= 0;
  int r = lf_send_stop_request_to_rti(t);
  CHECK(vf_lock_total == 0, "all locks are released");
  if (before) CHECK(r != 0 && n_out == 0, "a stop is proposed once");
  else if (!connected) CHECK(r != 0 && n_out == 0, "nothing is sent without a connection");
  else {
    CHECK(r == 0 && n_out == 1 && out_n[0] == 13 && out_b[0] == MSG_TYPE_STOP_REQUEST, "the stop request is sent");
    CHECK(spec_cmp(get_tag(out_b + 1), t) > 0, "the proposal is beyond the current tags");
    CHECK(_fed.received_stop_request_from_rti, "the request is remembered");
    n_out = 0;
    CHECK(lf_send_stop_request_to_rti(t) != 0 && n_out == 0, "a stop is proposed once");
  }
  COVER("send");
}
/* --- P21 */
static bool known_enough(tag_t now, tag_t grant, bool prov, int level) {
#ifdef FEDERATED_DECENTRALIZED
  for (size_t i = 0; i < NP; i++)
    if (i < _lf_action_table_size && spec_cmp(now, trg[i].last_known_status_tag) > 0 && !trg[i].is_physical) {
      if (_lf_action_delay_table[i] == 0 && now.time == start_time && now.microstep == 0) continue;
      if (_lf_action_delay_table[i] > 0 && now.time < spec_time_add(start_time, _lf_action_delay_table[i])) continue;
      if ((int)LF_LEVEL(rea[i].index) <= level) return false;
    }
  return true;
#else
  if (spec_cmp(now, grant) < 0 || (spec_eq(now, grant) && !prov)) return true;
  for (size_t k = 0; k < NP; k++)
    if (k < _lf_zero_delay_cycle_action_table_size) {
      int i = zdc[k];
      if (spec_cmp(now, trg[i].last_known_status_tag) > 0 && !trg[i].is_physical && (int)LF_LEVEL(rea[i].index) <= level) return false;
    }
  return true;
#endif
}
void h_level(void) {
  setup();
  tag_t g = nd_bool() ? NEVER_TAG : nd_t();
  bool prov = nd_bool();
  int l = (int)nd_range(0, 0xffff), old = max_level_allowed_to_advance;
  bool changed = lf_update_max_level(g, prov);
  CHECK((l < max_level_allowed_to_advance) == known_enough(envs[0].current_tag, g, prov, l), "a level may run exactly when every port that could still deliver to it is known or a final grant covers the tag");
  CHECK(changed == (max_level_allowed_to_advance != old), "changes are noticed");
  COVER("level");
}
void h_stall(void) {
  setup();
  int l = (int)nd_range(0, 0xffff);
  lf_stall_advance_level_federation(envs, (size_t)l);
  CHECK(l < max_level_allowed_to_advance, "a level runs only when it may");
  CHECK(vf_lock_total == 0, "locks are released");
  COVER("stall");
}
void h_tag(void) {
  setup();
  tag_t t = nd_t(), old = _fed.last_TAG, k0[NP], cur = envs[0].current_tag;
  bool oldp = _fed.is_last_TAG_provisional;
  for (int i = 0; i < NP; i++) k0[i] = trg[i].last_known_status_tag;
  put_tag(in_b, t);
  handle_tag_advance_grant();
  CHECK(vf_lock_total == 0, "locks are released");
  CHECK(spec_cmp(_fed.last_TAG, old) >= 0, "the recorded grant never decreases");
  if (spec_cmp(t, old) >= 0) {
    CHECK(spec_eq(_fed.last_TAG, t) && !_fed.is_last_TAG_provisional, "a final grant is recorded");
    CHECK(vf_n_broadcast > 0, "whoever waits for the grant is woken");
  } else
    CHECK(spec_eq(_fed.last_TAG, old) && _fed.is_last_TAG_provisional == oldp, "an old grant is ignored");
  for (int i = 0; i < NP; i++) {
    bool mine = (size_t)i < _lf_action_table_size && spec_cmp(t, k0[i]) >= 0;
    CHECK(spec_eq(trg[i].last_known_status_tag, mine ? t : k0[i]), "port knowledge reaches the grant and never goes back");
  }
#ifdef FEDERATED_CENTRALIZED
  if (spec_cmp(t, cur) >= 0)
    for (int i = 0; i < NP; i++)
      if ((size_t)i < _lf_action_table_size && spec_cmp(t, k0[i]) >= 0) CHECK(max_level_allowed_to_advance == INT_MAX, "a final grant that covers the tag frees every level");
#endif
  CHECK(n_out == 0 && n_ins == 0 && spec_eq(envs[0].current_tag, cur), "nothing else happens");
  COVER("tag");
}
void h_ptag(void) {
  setup();
  tag_t t = nd_t(), old = _fed.last_TAG, cur = envs[0].current_tag, ltc = _fed.last_sent_LTC;
  bool oldp = _fed.is_last_TAG_provisional;
  put_tag(in_b, t);
  tag_t k0[NP];
  for (int i = 0; i < NP; i++) k0[i] = trg[i].last_known_status_tag;
  handle_provisional_tag_advance_grant();
  CHECK(vf_lock_total == 0, "locks are released");
  CHECK(spec_cmp(t, old) > 0 || (spec_eq(t, old) && oldp), "a grant is never lowered, nor a final grant made provisional");
  CHECK(spec_eq(_fed.last_TAG, t) && _fed.is_last_TAG_provisional, "a provisional grant is recorded");
  CHECK(vf_n_broadcast > 0, "whoever waits for the grant is woken");
  for (int i = 0; i < NP; i++) CHECK(spec_eq(trg[i].last_known_status_tag, k0[i]), "a provisional grant says nothing about ports");
  int l = (int)nd_range(0, 0xffff);
  CHECK((l < max_level_allowed_to_advance) == known_enough(cur, t, true, l), "a level may run exactly when every port that could still deliver to it is known or a final grant covers the tag");
  if (spec_cmp(cur, t) < 0) CHECK(n_ins == 1 && n_dummy == 1 && spec_eq(dummy_tag, t), "the federate will visit the provisionally granted tag");
  else CHECK(n_ins == 0, "no event is queued in the past");
  if (n_out) CHECK(spec_cmp(cur, t) > 0 && out_b[0] == MSG_TYPE_LATEST_TAG_CONFIRMED && spec_eq(get_tag(out_b + 1), t) && spec_cmp(t, ltc) > 0, "a completion is reported once and only for a tag that is complete");
  COVER("ptag");
}
void h_port(void) {
  setup();
  ASSUME(_lf_action_table_size > 0);
  int p = (int)nd_range(0, NP - 1);
  ASSUME((size_t)p < _lf_action_table_size);
  tag_t t = nd_bool() ? FOREVER_TAG : nd_t(), k0[NP], cur = envs[0].current_tag;
  if (t.time == FOREVER) t.microstep = 0;
  for (int i = 0; i < NP; i++) k0[i] = trg[i].last_known_status_tag;
  update_last_known_status_on_input_port(envs, t, p);
  tag_t n = trg[p].last_known_status_tag;
  CHECK(spec_cmp(n, k0[p]) >= 0, "port knowledge never goes back");
  CHECK(spec_cmp(n, t) >= 0, "what has arrived is known");
  tag_t top = t;
  if (spec_cmp(cur, top) > 0) top = cur;
  if (spec_cmp(k0[p], top) >= 0) top = k0[p];
  CHECK(spec_cmp(n, spec_tag(top.time, top.microstep + 1)) <= 0, "no more is known than arrived");
  for (int i = 0; i < NP; i++)
    if (i != p) CHECK(spec_eq(trg[i].last_known_status_tag, k0[i]), "other ports are unaffected");
  if (!spec_eq(n, k0[p])) {
    int l = (int)nd_range(0, 0xffff);
    CHECK((l < max_level_allowed_to_advance) == known_enough(cur, _fed.last_TAG, _fed.is_last_TAG_provisional, l), "a level may run exactly when every port that could still deliver to it is known or a final grant covers the tag");
    CHECK(vf_n_broadcast > 0, "whoever waits for the port is woken");
  }
  COVER("port");
}
void h_ltc(void) {
  setup();
  tag_t t = nd_t(), old = _fed.last_sent_LTC;
  if (nd_bool()) _fed.socket_TCP_RTI = -1;
  lf_latest_tag_confirmed(t);
  CHECK(vf_lock_total == 0, "locks are released");
  CHECK(n_out <= 1 && spec_cmp(_fed.last_sent_LTC, old) >= 0, "reported completions never decrease");
  if (n_out) CHECK(spec_cmp(t, old) > 0 && out_n[0] == 13 && out_b[0] == MSG_TYPE_LATEST_TAG_CONFIRMED && spec_eq(get_tag(out_b + 1), t) && spec_eq(_fed.last_sent_LTC, t), "the completion reported is the one completed");
  if (envs[0].need_to_send_LTC && spec_cmp(t, old) > 0 && _fed.socket_TCP_RTI >= 0) CHECK(n_out == 1, "a completion is reported");
  COVER("ltc");
}
#ifdef FEDERATED_CENTRALIZED
void h_bounded(void) {
  setup();
  interval_t d = _fed.min_delay_from_physical_action_to_federate_output = nd_i64();
  ASSUME(d >= 0 || d == NEVER);
  _fed.has_downstream = nd_bool();
  tag_t t = nd_bool() ? FOREVER_TAG : nd_t(), t0 = t;
  bool b = bounded_NET(&t);
  if (d >= 0 && _fed.has_downstream) {
    CHECK(t.time < spec_time_add(g_phys, d) || spec_eq(t, t0), "the promise cannot be undercut by a physical action");
    CHECK(t0.time <= spec_time_add(g_phys, d) || t.time < spec_time_add(g_phys, d), "the promise cannot be undercut by a physical action");
    CHECK(spec_cmp(t, t0) <= 0, "the promise is not later than the next event");
  } else
    CHECK(spec_eq(t, t0) && !b, "without physical actions the promise is the next event");
  CHECK(b == !spec_eq(t, t0), "a bounded promise is recognised");
  COVER("bounded");
}
#endif
void h_send(void) {
  setup();
  interval_t d = nd_bool() ? NEVER : nd_range(0, FOREVER);
  int type = nd_bool() ? MSG_TYPE_TAGGED_MESSAGE : MSG_TYPE_P2P_TAGGED_MESSAGE;
  uint16_t port = nd_u16(), fed = (uint16_t)nd_range(0, 2);
  unsigned char body[4];
  for (int i = 0; i < 3; i++) _fed.sockets_for_outbound_p2p_connections[i] = 20 + i;
  may_fail = true;
  tag_t cur = envs[0].current_tag, want;
  if (d == NEVER) want = cur;
  else if (d == 0) want = spec_tag(cur.time, cur.microstep + 1);
  else want = spec_tag(spec_time_add(cur.time, d), 0);
  bool after = spec_cmp(want, envs[0].stop_tag) > 0;
  int r = lf_send_tagged_message(envs, d, type, port, fed, "x", 4, body);
  CHECK(vf_lock_total == 0, "locks are released");
  if (after) CHECK(r == -1 && n_out == 0, "no message is sent for a tag after the stop tag");
  else if (want.time != FOREVER) {
    if (r == 0) CHECK(n_out == 2 && out_n[0] == 21 && out_n[1] == 4, "header and body are sent");
    if (n_out == 2) {
      CHECK(r == 0 && out_b[0] == type && out_b[1] == (port & 255) && out_b[2] == port >> 8 && out_b[3] == (fed & 255) && out_b[4] == 0 && out_b[5] == 4 && out_b[6] == 0, "the header names port, destination and length");
      CHECK(spec_eq(get_tag(out_b + 9), want), "a message carries the current tag plus the connection's delay");
      CHECK(out_fd[0] == out_fd[1] && out_fd[0] == (type == MSG_TYPE_TAGGED_MESSAGE ? 10 : 20 + fed), "the message goes to its destination");
    }
    if (n_out == 3) CHECK(r != 0, "a failure is reported");
  }
  COVER("send");
}
