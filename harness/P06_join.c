/* P06 (and P26 for these functions): joining and the common start.  Real code: core/federated/RTI/rti_remote.c
 * receive_and_check_fed_id_message, send_reject, lf_connect_to_federates, handle_timestamp, receive_connection_information */
#include "vf.h"
#define MAXW 4
#define RBYTES 40
#include <sys/socket.h>
/* STUB: accept: a fresh descriptor; lf_thread_create: recorded */
static int accepts;
static int my_accept(int fd, struct sockaddr* a, socklen_t* l);
#define accept my_accept
#include "rti_env.h"
#include "core/utils/pqueue_base.c"
#include "core/utils/pqueue_tag.c"
#ifndef LEN
#define LEN 0
#define NU 0
#define ND 0
#endif
#ifndef IDLEN
#define IDLEN 4
#endif
static char own_id[IDLEN + 1];
#define NEWFD (FD0 + NN + 5)
static int reply_n, reply_type, reply_cause, reply_fd;
static bool expect_start;
static tag_t want_start;
static int started_n;
static int64_t g_max;
static int n_proposed_min;
static void on_write(int fd, const unsigned char* b, size_t n) {
  if (expect_start) {
    CHECK(fd == FD0, "the start time goes to the federate that proposed one");
    CHECK(n == 9 && b[0] == MSG_TYPE_TIMESTAMP, "the start time is a timestamp message");
    CHECK(rti.num_feds_proposed_start == NN, "the start time is announced only after all federates have proposed one");
    CHECK((int64_t)le(b + 1, 8) == g_max + DELAY_START, "the start time is the maximum proposal plus the fixed offset");
    started_n++;
    return;
  }
  reply_n++;
  reply_fd = fd;
  reply_type = b[0];
  if (reply_type == MSG_TYPE_REJECT) {
    CHECK(n == 2, "a rejection is two bytes");
    reply_cause = b[1];
  } else
    CHECK(n == 1, "an acknowledgment is one byte");
}
static void vf_on_lock(void* m) {}
static void vf_wait_effect(lf_cond_t* c) {
  /* other federates propose; nobody waits more than twice here */
  static int waits;
  int more = waits++ ? NN : (int)nd_range(0, NN);
  for (int i = 0; i < NN; i++)
    if (i < more && rti.num_feds_proposed_start < NN) {
      int64_t t = nd_range(0, FOREVER / 2);
      rti.num_feds_proposed_start++;
      if (t > g_max) g_max = t;
      rti.max_start_time = g_max;
    }
}
static int my_accept(int fd, struct sockaddr* a, socklen_t* l) {
  accepts++;
#ifndef VF_ABSTRACT
  /* a process joins with some ID, its topology (no neighbors) and its clock port, or with a wrong message instead */
  for (int i = 0; i < 16; i++) in_b[i] = 0;
  in_pos = 0;
  in_fd = NEWFD;
  in_b[0] = MSG_TYPE_FED_IDS;
  in_b[1] = nd_u8();
  in_b[4] = nd_bool() ? MSG_TYPE_NEIGHBOR_STRUCTURE : MSG_TYPE_RESIGN;
  in_b[13] = nd_bool() ? MSG_TYPE_UDP_PORT : MSG_TYPE_RESIGN;
  int n = 0;
  for (int i = 0; i < NN; i++) n += nodes[i]->state != NOT_CONNECTED;
  CHECK(n == vf_threads_created, "the ID of a rejected process stays free");
#endif
  return NEWFD;
}
/* --- joining: the message is type, id, length, federation identifier */
static bool all_same(void) {
  for (int i = 0; i < NN; i++)
    if (!fed_same(i) || FED(i)->socket != FD0 + i) return false;
  return true;
}
void h_join(void) {
  rti_setup();
  int own_len = (int)nd_range(0, IDLEN);
  for (int i = 0; i < IDLEN; i++) {
    own_id[i] = i < own_len ? (char)nd_range(1, 127) : 0;
  }
  rti.federation_id = own_id;
  may_fail_write = nd_bool();
  for (int i = 0; i < 4 + IDLEN; i++) in_b[i] = i == 3 ? LEN : nd_u8();
  int id = (int)le(in_b + 1, 2), len = LEN;
  in_fd = NEWFD;
  int s = NEWFD;
  struct sockaddr_in addr;
  addr.sin_addr.s_addr = nd_u32();
  bool same_id = len == own_len;
  for (int i = 0; i < IDLEN; i++)
    if (i < len && i < own_len && (char)in_b[4 + i] != own_id[i]) same_id = false;
  int32_t r = receive_and_check_fed_id_message(&s, &addr);
  bool fed_ids = in_b[0] == MSG_TYPE_FED_IDS, in_range = id < NN;
  bool free_id = in_range && SEL(b_state, id) == NOT_CONNECTED;
  bool admit = fed_ids && same_id && in_range && free_id;
  if (read_failed_once) {
    CHECK(r == -1 && all_same() && reply_n == 0, "a federate that cannot be read from is not admitted");
  } else if (!admit) {
    CHECK(r == -1, "only a federate of this federation with a valid unused ID is admitted");
    CHECK(all_same(), "a rejected process leaves the federation's state unchanged");
    CHECK(s == -1 && closed_n[NN] >= 1, "a rejected process is disconnected");
    if (!write_failed_once) {
      CHECK(reply_n == 1 && reply_fd == NEWFD && reply_type == MSG_TYPE_REJECT, "a rejected process is told so");
      int c = reply_cause;
      if (!fed_ids) {
        if (in_b[0] == MSG_TYPE_P2P_SENDING_FED_ID || in_b[0] == MSG_TYPE_P2P_TAGGED_MESSAGE) CHECK(c == WRONG_SERVER, "the cause matches: wrong server");
        else if (in_b[0] == MSG_TYPE_FED_NONCE) CHECK(c == RTI_NOT_EXECUTED_WITH_AUTH, "the cause matches: no authentication here");
        else CHECK(c == UNEXPECTED_MESSAGE, "the cause matches: unexpected message");
      } else
        CHECK((c == FEDERATION_ID_DOES_NOT_MATCH && !same_id) || (c == FEDERATE_ID_OUT_OF_RANGE && !in_range) ||
                  (c == FEDERATE_ID_IN_USE && in_range && !free_id),
              "the cause matches the reason");
    }
  } else if (write_failed_once) {
    CHECK(r == -1, "a federate that cannot be answered is not admitted");
    for (int i = 0; i < NN; i++) CHECK(fed_same(i), "its ID stays free");
  } else {
    CHECK(r == id, "a matching federate is admitted under its ID");
    CHECK(reply_n == 1 && reply_fd == NEWFD && reply_type == MSG_TYPE_ACK, "an admitted federate is acknowledged");
    for (int i = 0; i < NN; i++) {
      if (i == id) {
        CHECK(nodes[i]->state == PENDING && FED(i)->socket == NEWFD, "the admitted federate waits for the start on its socket");
        CHECK(FED(i)->server_ip_addr.s_addr == addr.sin_addr.s_addr, "its address is recorded");
        CHECK(closed_n[NN] == 0 && s == NEWFD, "its socket stays open");
      } else
        CHECK(fed_same(i) && FED(i)->socket == FD0 + i, "other federates are not affected");
    }
  }
  CHECK26(vf_lock_total == 0, "the lock is released on every path");
  COVER("join");
  if (admit) COVER("admitted");
}
/* --- accepting until everybody has joined */
static int ok_step[6];
static bool joined[NN];
static int n_threads_for;
#ifdef VF_ABSTRACT
/* STUB: receive_and_check_fed_id_message by its contract (h_join); receive_connection_information and
 * receive_udp_message_and_set_up_clock_sync: succeed or reject */
int32_t abs_receive_and_check_fed_id_message(int* s, struct sockaddr_in* a) {
  int n = 0;
  for (int i = 0; i < NN; i++) n += nodes[i]->state != NOT_CONNECTED;
  CHECK(n == vf_threads_created, "the ID of a rejected process stays free");
  int id = (int)nd_range(-1, NN - 1);
  if (id < 0) {
    *s = -1;
    return -1;
  }
  ASSUME(nodes[id]->state == NOT_CONNECTED);
  nodes[id]->state = PENDING;
  FED(id)->socket = *s;
  return id;
}
int abs_receive_connection_information(int* s, uint16_t id) {
  if (nd_bool()) return 1;
  *s = -1;
  return 0;
}
int abs_receive_udp_message_and_set_up_clock_sync(int* s, uint16_t id) {
  return abs_receive_connection_information(s, id);
}
#endif
void h_connect(void) {
  rti_setup();
  for (int i = 0; i < NN; i++) nodes[i]->state = b_state[i] = NOT_CONNECTED;
  rti.clock_sync_global_status = clock_sync_off;
  rti.federation_id = own_id;
  lf_connect_to_federates(3);
  for (int i = 0; i < NN; i++) CHECK(nodes[i]->state == PENDING, "accepting ends only when every federate has joined");
  CHECK(vf_threads_created == NN, "every federate gets exactly one handler");
  COVER("connect");
}
/* --- the common start */
void h_start(void) {
  rti_setup();
  expect_start = true;
  unlocked_write_ok = true; /* the start time is sent by each federate's own thread before it is released to others */
  may_fail_write = true;
  rti.num_feds_proposed_start = (int)nd_range(0, NN - 1);
  rti.max_start_time = g_max = nd_range(0, FOREVER / 2);
  if (rti.num_feds_proposed_start == 0) rti.max_start_time = g_max = 0;
  int64_t p = nd_range(0, FOREVER / 2);
  put_le(in_b, (uint64_t)p, 8);
  in_fd = FD0;
  nodes[0]->state = PENDING;
  if (p > g_max) g_max = p;
  handle_timestamp(FED(0));
  CHECK(in_pos == 8, "the whole proposal is read");
  CHECK(start_time == g_max + DELAY_START, "the start time is the maximum proposal plus the fixed offset");
  CHECK(started_n == 1 || write_failed_once, "the start time is announced to the proposer once");
  CHECK(nodes[0]->state == GRANTED, "a started federate may be granted tags");
  CHECK(rti.num_feds_proposed_start == NN && rti.max_start_time == g_max, "every proposal is counted once");
  CHECK(vf_n_broadcast >= 1, "those waiting for the start are woken");
  for (int i = 1; i < NN; i++) CHECK(fed_same(i), "other federates are not affected");
  CHECK26(vf_lock_total == 0, "the lock is released on every path");
  COVER("start");
}
/* --- the declared topology is recorded as declared (P04) */
void h_neighbors(void) {
  rti_setup();
  nodes[0]->upstream = nodes[0]->downstream = NULL;
  nodes[0]->upstream_delay = NULL;
  for (int i = 0; i < 37; i++) in_b[i] = nd_u8();
  int nu = NU, nd = ND;
  put_le(in_b + 1, nu, 4);
  put_le(in_b + 5, nd, 4);
  int s = FD0;
  in_fd = FD0;
  int r = receive_connection_information(&s, 0);
  if (in_b[0] != MSG_TYPE_NEIGHBOR_STRUCTURE) {
    CHECK(r == 0 && s == -1 && all_same(), "another message is rejected");
  } else {
    CHECK(r == 1 && s == FD0 && reply_n == 0, "the topology message is accepted");
    CHECK(nodes[0]->num_upstream == nu && nodes[0]->num_downstream == nd, "the numbers of neighbors are recorded");
    for (int i = 0; i < 2; i++) {
      if (i < nu) {
        CHECK(nodes[0]->upstream[i] == (uint16_t)le(in_b + 9 + 10 * i, 2), "upstream neighbors are recorded as declared");
        CHECK(nodes[0]->upstream_delay[i] == (int64_t)le(in_b + 9 + 10 * i + 2, 8), "connection delays are recorded as declared");
      }
      if (i < nd) CHECK(nodes[0]->downstream[i] == (uint16_t)le(in_b + 9 + 10 * nu + 2 * i, 2), "downstream neighbors are recorded as declared");
    }
    for (int i = 1; i < NN; i++) CHECK(fed_same(i), "other federates are not affected");
    CHECK(in_pos == (size_t)(9 + 10 * nu + 2 * nd), "exactly the message is read");
  }
  CHECK26(vf_lock_total == 0, "the lock is released on every path");
  COVER("neighbors");
}
