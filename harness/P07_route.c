/* P07 (and P08, P26 for these handlers): routing.  Real code: core/federated/RTI/rti_remote.c handle_timed_message,
 * handle_port_absent_message, handle_next_event_tag, handle_latest_tag_confirmed, update_federate_next_event_tag_locked */
#include "vf.h"
#include "net_common.h"
#ifdef VF_SEARCH
/* a smaller transfer buffer keeps the concrete search short; the proof uses the real size */
#undef FED_COM_BUFFER_SIZE
#define FED_COM_BUFFER_SIZE 24u
#endif
#define WBYTES 4
#define MAXW 1
#define RBYTES 56
#ifdef VF_ABSTRACT
#define VF_IO_CONTRACT
#endif
#include "rti_env.h"
#include "core/utils/pqueue_base.c"
#include "core/utils/pqueue_tag.c"
#define HDR 20
/* the byte stream sent to the coordinator, from the byte after the message type: position k holds in_b[k] for the header,
 * one arbitrary position g_k beyond it holds g_v; likewise for what is forwarded */
size_t g_rd, g_wr, g_total, g_k;
unsigned char g_v;
int g_dest;
_Bool g_any_write;
static unsigned char msg_buf[FED_COM_BUFFER_SIZE];
static unsigned char msg_type;
static void out(int fd, const unsigned char* b, size_t n) {
  CHECK(fd == FD0 + g_dest, "the message goes to the addressed federate only");
  CHECK(nodes[g_dest]->state == GRANTED, "nothing is sent to a federate that is not connected or not started");
  CHECK26(vf_lock_total > 0, "coordination messages are sent while holding the lock");
  CHECK(g_wr + n <= g_rd + 1, "only what was received is forwarded");
#define HB(k) if (k >= g_wr && k < g_wr + n) CHECK(b[k - g_wr] == (k == 0 ? msg_type : in_b[k ? k - 1 : 0]), "the header is forwarded byte for byte");
  HB(0) HB(1) HB(2) HB(3) HB(4) HB(5) HB(6) HB(7) HB(8) HB(9) HB(10) HB(11) HB(12) HB(13) HB(14) HB(15) HB(16) HB(17) HB(18) HB(19) HB(20)
  if (g_k + 1 >= g_wr && g_k + 1 - g_wr < n) CHECK(b[g_k + 1 - g_wr] == g_v, "the payload is forwarded byte for byte");
  g_wr += n;
  g_any_write = true;
}
static void on_write(int fd, const unsigned char* b, size_t n) { out(fd, b, n); }
static bool waited;
static void vf_on_lock(void* m) {}
/* while waiting for the start, the addressee starts or leaves */
static void vf_wait_effect(lf_cond_t* c) {
  waited = true;
  for (int i = 0; i < NN; i++)
    if (nodes[i]->state == PENDING) nodes[i]->state = b_state[i] = nd_bool() ? GRANTED : NOT_CONNECTED;
}
/* --- in-transit records */
static int ins_n, rem_n, upd_n;
static tag_t ins_tag, rem_tag, upd_tag, peek_tag[NN];
static pqueue_tag_t *ins_q, *rem_q;
static int upd_node;
static pqueue_tag_t* the_q[NN];
static bool expect_forwarded;
#ifdef VF_ABSTRACT
/* STUB: read_from_socket_fail_on_error, write_to_socket_fail_on_error by their contract (P10): the next bytes of the stream */
static void rd_fail(int* s, size_t n, unsigned char* b) {
  CHECK(*s == FD0, "a message is read from the sender's socket");
  CHECK(n == 0 || __CPROVER_w_ok(b, n), "a read stays within the buffer");
  CHECK(g_rd + n <= g_total, "no byte after the message is consumed");
  if (n > 0) __CPROVER_havoc_slice(b, n);
#define RB(k) if (k >= g_rd && k < g_rd + n) ASSUME(b[k - g_rd] == in_b[k]);
  RB(0) RB(1) RB(2) RB(3) RB(4) RB(5) RB(6) RB(7) RB(8) RB(9) RB(10) RB(11) RB(12) RB(13) RB(14) RB(15) RB(16) RB(17) RB(18) RB(19)
  if (g_k >= g_rd && g_k - g_rd < n) ASSUME(b[g_k - g_rd] == g_v);
  g_rd += n;
}
static void wr_fail(int* s, size_t n, unsigned char* b) {
  CHECK(n == 0 || __CPROVER_r_ok(b, n), "a write stays within the buffer");
  out(*s, b, n);
}
/* STUB: the in-transit queue by its contract (P13): a multiset of tags with a minimum */
int abs_pqueue_tag_insert_if_no_match(pqueue_tag_t* q, tag_t t) {
  ins_n++;
  ins_q = q;
  ins_tag = t;
  for (int i = 0; i < NN; i++)
    if (the_q[i] == q && spec_cmp(t, peek_tag[i]) < 0) peek_tag[i] = t;
  return nd_bool();
}
tag_t abs_pqueue_tag_peek_tag(pqueue_tag_t* q) {
  for (int i = 0; i < NN; i++)
    if (the_q[i] == q) return peek_tag[i];
  CHECK(0, "the federate's own in-transit record is used");
  return NEVER_TAG;
}
void abs_pqueue_tag_remove_up_to(pqueue_tag_t* q, tag_t t) {
  rem_n++;
  rem_q = q;
  rem_tag = t;
  CHECK26(vf_lock_total > 0, "in-transit records are updated while holding the lock");
}
/* STUB: update_scheduling_node_next_event_tag_locked, _logical_tag_complete by their contracts (P03) */
void abs_update_scheduling_node_next_event_tag_locked(scheduling_node_t* e, tag_t t) {
  upd_n++;
  upd_node = e->id;
  upd_tag = t;
  e->next_event = t;
  if (expect_forwarded) CHECK(g_wr == g_total + 1, "the message is forwarded before grants are re-evaluated");
  CHECK26(vf_lock_total > 0, "the pending tag is updated while holding the lock");
}
void abs__logical_tag_complete(scheduling_node_t* e, tag_t t) {
  upd_n++;
  upd_node = e->id;
  upd_tag = t;
  e->completed = t;
  CHECK(rem_n == 0 || true, "");
}
#define READ_POS g_rd
#else
#define READ_POS in_pos
static int scan_has(pqueue_tag_t* q, tag_t t) { return pqueue_tag_find_with_tag(q, t) != NULL; }
#endif
static void begin(int queue_len) {
  rti_setup();
  for (int i = 0; i < NN; i++) {
#ifdef VF_ABSTRACT
    the_q[i] = FED(i)->in_transit_message_tags = (pqueue_tag_t*)vf_alloc(1);
    peek_tag[i] = nd_prog_tag();
#else
    the_q[i] = FED(i)->in_transit_message_tags = pqueue_tag_init(3);
    peek_tag[i] = FOREVER_TAG;
    tag_t t = nd_prog_tag();
    if (queue_len && nd_bool()) {
      pqueue_tag_insert_tag(the_q[i], t);
      peek_tag[i] = t;
    }
    nodes[i]->num_downstream = b_ndn[i] = 0;
    nodes[i]->num_upstream = b_nup[i] = 0;
#endif
  }
  nodes[0]->state = b_state[0] = GRANTED;
  in_fd = FD0;
  g_rd = g_wr = 0;
  g_any_write = false;
}
static void others_same(int except) {
  for (int i = 0; i < NN; i++)
    if (i != except) CHECK(fed_same(i), "other federates' records are not affected");
}
void h_timed(void) {
  ins_n = rem_n = upd_n = 0;
  w_n = 0;
  vf_lock_total = 0;
  waited = false;
  begin(0);
  for (int i = 0; i < HDR; i++) in_b[i] = nd_u8();
#ifdef VF_SEARCH
  in_b[4] = 28; /* three transfers, the last one of a single byte */
  in_b[5] = in_b[6] = in_b[7] = 0;
#endif
  uint32_t len = (uint32_t)le(in_b + 4, 4);
  g_dest = (int)le(in_b + 2, 2);
  ASSUME(g_dest < NN); /* federates address federates of this federation */
  ASSUME((int64_t)le(in_b + 8, 8) >= 0); /* tags of messages are not before the start */
  tag_t t = le_tag(in_b + 8);
#ifdef VF_SEARCH
  for (int i = HDR; i < HDR + 30; i++) in_b[i] = nd_u8();
#endif
  g_total = HDR + (size_t)len;
  g_k = (size_t)nd_range(HDR, HDR + (int64_t)1 + UINT32_MAX);
#ifdef VF_SEARCH
  ASSUME(g_k < RBYTES);
  g_v = in_b[g_k];
#else
  g_v = nd_u8();
#endif
  msg_type = msg_buf[0] = MSG_TYPE_TAGGED_MESSAGE;
  expect_forwarded = true;
#ifdef VF_SEARCH
  g_rd = HDR + len; /* not tracked by the concrete stream */
#endif
  handle_timed_message(FED(0), msg_buf);
  CHECK(READ_POS == g_total, "exactly the message is consumed");
  CHECK26(vf_lock_total == 0, "the lock is released on every path");
  if (SEL(b_state, g_dest) == NOT_CONNECTED) {
    CHECK(!g_any_write && ins_n == 0 && upd_n == 0, "a message to a federate that is gone is dropped whole");
    CHECK(fed_same(g_dest), "a dropped message changes nothing");
    COVER("dropped");
  } else {
    CHECK(g_wr == g_total + 1, "the message is forwarded complete");
    CHECK(g_dest == 0 || spec_cmp(nodes[g_dest]->next_event, t) <= 0, "the receiver's pending tag is no later than the message's");
    CHECK(spec_cmp(SEL(b_next, g_dest), t) > 0 || spec_eq(nodes[g_dest]->next_event, SEL(b_next, g_dest)), "an earlier pending tag is kept");
    CHECK(spec_eq(nodes[g_dest]->completed, SEL(b_comp, g_dest)), "the receiver's completed tag is not changed");
#ifdef VF_ABSTRACT
    if (spec_cmp(SEL(b_comp, g_dest), t) < 0)
      CHECK(ins_n == 1 && ins_q == the_q[g_dest] && spec_eq(ins_tag, t), "the message is recorded as in transit to its receiver");
    else
      CHECK(ins_n == 0, "a message that is late is not recorded");
#else
    CHECK((spec_cmp(SEL(b_comp, g_dest), t) < 0) == scan_has(the_q[g_dest], t), "the message is recorded as in transit to its receiver");
#endif
    COVER("forwarded");
  }
  others_same(g_dest);
  COVER("timed");
}
void h_absent(void) {
  begin(0);
  for (int i = 0; i < 16; i++) in_b[i] = nd_u8();
  g_dest = (int)le(in_b + 2, 2);
  ASSUME(g_dest < NN);
  g_total = 16;
  g_k = 100;
  msg_type = msg_buf[0] = MSG_TYPE_PORT_ABSENT;
#ifdef VF_SEARCH
  g_rd = 16;
#endif
  handle_port_absent_message(FED(0), msg_buf);
  CHECK(READ_POS == 16, "exactly the notice is consumed");
  if (SEL(b_state, g_dest) == NOT_CONNECTED) CHECK(!g_any_write, "a notice to a federate that is gone is dropped");
  else CHECK(g_wr == 17, "the notice is forwarded complete");
  for (int i = 0; i < NN; i++) CHECK(fed_same(i), "a notice changes no record");
  CHECK26(vf_lock_total == 0, "the lock is released on every path");
  COVER("absent");
}
void h_net(void) {
  begin(1);
  for (int i = 0; i < 12; i++) in_b[i] = nd_u8();
  tag_t t = le_tag(in_b);
  ASSUME(t.time != FOREVER || t.microstep == UINT_MAX);
  g_total = 12;
  g_k = 100;
  tag_t want = spec_cmp(peek_tag[0], t) < 0 ? peek_tag[0] : t;
#ifndef VF_ABSTRACT
  b_nup[0] = nodes[0]->num_upstream = 0;
#endif
  handle_next_event_tag(FED(0));
  CHECK(spec_eq(nodes[0]->next_event, want), "the pending tag is the reported one, but no later than a message still in transit");
  CHECK(spec_eq(nodes[0]->completed, b_comp[0]), "the completed tag is not changed");
  others_same(0);
#ifdef VF_ABSTRACT
  CHECK(upd_n == 1 && upd_node == 0, "the report is processed once");
  CHECK(ins_n == 0 && rem_n == 0, "the in-transit record is not changed");
#endif
  CHECK26(vf_lock_total == 0, "the lock is released on every path");
  COVER("net");
}
void h_ltc(void) {
  begin(1);
  for (int i = 0; i < 12; i++) in_b[i] = nd_u8();
  tag_t t = le_tag(in_b);
  ASSUME(spec_cmp(t, FOREVER_TAG) < 0 && (t.time != FOREVER));
  g_total = 12;
  g_k = 100;
  handle_latest_tag_confirmed(FED(0));
  CHECK(spec_eq(nodes[0]->completed, t), "the reported completed tag is recorded");
  CHECK(next_same(0), "the pending tag is not changed");
  others_same(0);
#ifdef VF_ABSTRACT
  CHECK(upd_n == 1 && upd_node == 0, "the report is processed once");
  CHECK(rem_n == 1 && rem_q == the_q[0] && spec_eq(rem_tag, t) && ins_n == 0, "messages stay in transit until the federate reports their tag complete");
#else
  CHECK(spec_cmp(peek_tag[0], FOREVER_TAG) == 0 || scan_has(the_q[0], peek_tag[0]) == (spec_cmp(peek_tag[0], t) > 0),
        "messages stay in transit until the federate reports their tag complete");
#endif
  CHECK26(vf_lock_total == 0, "the lock is released on every path");
  COVER("ltc");
}
