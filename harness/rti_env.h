/* The coordinator with at most NN federates in arbitrary states, over ghost sockets. */
#ifndef RTI_ENV_H
#define RTI_ENV_H
#include "vf_env_min.h"
#include "rti_remote.h"
#include "net_util.h"
#include "net_common.h"
#include "tag_spec.h"
#include "lf_types.h"
#define POOL_TYPE federate_info_t
#include "rti_pool.h"
#include "vf_lock.h"
#define FED(i) ((federate_info_t*)nodes[i])
#define FD0 10
/* --- ghost sockets
 * STUB: read/write/close/shutdown: fd FD0+i is federate i's socket; a write is logged whole or fails for good, a read
 *       delivers the next bytes of in_b or fails for good (partial transfers are P10's) */
#ifndef MAXW
#define MAXW 6
#endif
#ifndef WBYTES
#define WBYTES 13
#endif
#ifndef RBYTES
#define RBYTES 24
#endif
static int w_n, w_fd[MAXW];
static size_t w_len[MAXW];
static unsigned char w_b[MAXW][WBYTES];
static bool may_fail_write, may_fail_read, unlocked_write_ok;
static bool read_failed_once, write_failed_once;
static unsigned char in_b[RBYTES];
static size_t in_pos, in_len;
static int in_fd = -1;
static int max_reads = -1; /* the peer ends the stream after that many reads */
static int closed_n[NN + 1], shut_n[NN + 1]; /* last entry: any other descriptor */
static int fd_index(int fd) { return fd >= FD0 && fd < FD0 + NN ? fd - FD0 : NN; }
static void on_write(int fd, const unsigned char* b, size_t n);
ssize_t write(int fd, const void* buf, size_t n) {
  CHECK26(vf_lock_total > 0 || unlocked_write_ok, "coordination messages are sent while holding the lock");
  if (may_fail_write && nd_bool()) {
    errno = EPIPE;
    write_failed_once = true;
    return -1;
  }
  on_write(fd, (const unsigned char*)buf, n);
  if (w_n < MAXW) {
    w_fd[w_n] = fd;
    w_len[w_n] = n;
    for (size_t k = 0; k < WBYTES; k++)
      if (k < n) w_b[w_n][k] = ((const unsigned char*)buf)[k];
  }
  w_n++;
  return (ssize_t)n;
}
ssize_t read(int fd, void* buf, size_t n) {
  if (max_reads == 0) return 0;
  if (max_reads > 0) max_reads--;
#ifdef VF_FAIL_READ /* a fixed read fails: keeps the other inputs constant */
  static int nth;
  if (++nth == VF_FAIL_READ) {
#else
  if (may_fail_read && nd_bool()) {
#endif
    read_failed_once = true;
    errno = ECONNRESET;
#ifdef VF_FAIL_READ
    return -1;
#else
    return nd_bool() ? -1 : 0;
#endif
  }
  CHECK(in_fd < 0 || fd == in_fd, "a message is read from the sender's socket");
  for (size_t k = 0; k < RBYTES; k++)
    if (k < n) ((unsigned char*)buf)[k] = in_pos + k < RBYTES ? in_b[in_pos + k] : nd_u8();
  in_pos += n;
  return (ssize_t)n;
}
int close(int fd) {
  closed_n[fd_index(fd)]++;
  return 0;
}
int shutdown(int fd, int how) {
  shut_n[fd_index(fd)]++;
  return 0;
}
/* STUB: lf_clock_gettime, lf_tracing_set_start_time, tracepoint_rti_*: arbitrary value / no effect */
static instant_t now_value;
int lf_clock_gettime(instant_t* t) {
  *t = now_value;
  return 0;
}
#if defined(LF_TRACE)
void lf_tracing_set_start_time(int64_t t) {}
void tracepoint_rti_to_federate(trace_event_t t, int f, tag_t* g) {}
void tracepoint_rti_from_federate(trace_event_t t, int f, tag_t* g) {}
#endif

#include "core/tag.c"
#include "core/federated/network/net_util.c"
#include "core/federated/RTI/rti_common.c"
#ifdef VF_IO_CONTRACT
/* the failing-is-fatal transfers are known by their contract (P10); they are variadic only for their message */
static void rd_fail(int* s, size_t n, unsigned char* b);
static void wr_fail(int* s, size_t n, unsigned char* b);
#define read_from_socket_fail_on_error(s, n, b, ...) rd_fail(s, n, b)
#define write_to_socket_fail_on_error(s, n, b, ...) wr_fail(s, n, b)
#endif
#include "core/federated/RTI/rti_remote.c"

static rti_remote_t rti;
static uint64_t le(const unsigned char* b, int n) {
  uint64_t v = 0;
  for (int i = 0; i < 8; i++)
    if (i < n) v |= (uint64_t)b[i] << (8 * i);
  return v;
}
static tag_t le_tag(const unsigned char* b) { return spec_tag((int64_t)le(b, 8), (uint32_t)le(b + 8, 4)); }
static void put_le(unsigned char* b, uint64_t v, int n) {
  for (int i = 0; i < n; i++) b[i] = (unsigned char)(v >> (8 * i));
}
static void put_tag(unsigned char* b, tag_t t) {
  put_le(b, (uint64_t)t.time, 8);
  put_le(b + 8, t.microstep, 4);
}
static bool b_req[NN];
static tag_t b_max_stop;
static int b_handling;
static void rti_setup(void) {
  start_time = nd_i64();
  ASSUME(start_time > 0 && start_time < FOREVER / 4);
  for (int i = 0; i < NN; i++) {
    pool_node(i);
    FED(i)->socket = FD0 + i;
    FED(i)->requested_stop = b_req[i] = nd_bool();
    FED(i)->in_transit_message_tags = NULL;
  }
  rti_remote = &rti;
  rti_common = &rti.base;
  rti.base.scheduling_nodes = nodes;
  rti.base.number_of_scheduling_nodes = NN;
  rti.base.mutex = &rti_mutex;
  rti.base.tracing_enabled = false;
  rti.base.max_stop_tag = b_max_stop = nd_prog_tag();
  rti.base.num_scheduling_nodes_handling_stop = b_handling = (int)nd_range(0, NN);
  rti.stop_in_progress = false;
  in_pos = 0;
}
/* nothing about federate i changed (ghost copies in b_*) */
static bool fed_same(int i) { return node_same(i) && next_same(i) && FED(i)->requested_stop == b_req[i]; }
#endif
