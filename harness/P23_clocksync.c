/* P23: clock synchronization.  Real code: core/federated/clock-sync.c */
#include "vf.h"
#include "vf_env_min.h"
#include <errno.h>
#include "low_level_platform.h"
#include "clock-sync.h"
#include "net_common.h"
#include "net_util.h"
#include "tag_spec.h"
#include "platform/lf_atomic.h"
/* STUB: read/write: whole transfers or failure (partial ones are P10's); lf_clock_gettime: arbitrary value */
static unsigned char out_b[16], in_b[16];
static size_t out_n;
static int out_fd, n_out, n_in, in_fd, wr_fail, rd_fail;
static instant_t now_seq[2];
static int n_now;
ssize_t write(int fd, const void* b, size_t n) {
  if (wr_fail) {
    errno = EPIPE;
    return -1;
  }
  CHECK(n_now == 0, "the reply is sent before the local delay is measured");
  out_fd = fd;
  out_n = n;
  n_out++;
  for (size_t i = 0; i < 16; i++)
    if (i < n) out_b[i] = ((const unsigned char*)b)[i];
  return (ssize_t)n;
}
ssize_t read(int fd, void* b, size_t n) {
  if (rd_fail) {
    errno = ECONNRESET;
    return -1;
  }
  in_fd = fd;
  n_in++;
  for (size_t i = 0; i < 16; i++)
    if (i < n) ((unsigned char*)b)[i] = in_b[i];
  return (ssize_t)n;
}
int lf_clock_gettime(instant_t* t) {
  *t = now_seq[n_now & 1];
  n_now++;
  return 0;
}
int lf_sleep(interval_t d) { return 0; }
int lf_mutex_unlock(lf_mutex_t* m) { return 0; }
int lf_thread_create(lf_thread_t* t, void* (*f)(void*), void* a) { return 0; }
void initialize_lf_thread_id() {}
/* STUB: lf_atomic_fetch_add64: atomic addition */
int64_t lf_atomic_fetch_add64(int64_t* p, int64_t v) {
  int64_t o = *p;
  *p += v;
  return o;
}
int _lf_my_fed_id = 7;
#include "core/tag.c"
#include "core/federated/network/net_util.c"
#include "core/federated/clock-sync.c"
static int64_t t64(void) { return nd_range(-((int64_t)1 << 60), (int64_t)1 << 60); }
static void put64(unsigned char* b, int64_t v) {
  for (int i = 0; i < 8; i++) b[i] = (unsigned char)((uint64_t)v >> (8 * i));
}
static int64_t b_off, b_hist, b_delay, b_t1, b_t2;
static int b_cnt, b_idx;
static void state(void) {
  _lf_clock_sync_offset = b_off = t64();
  _lf_rti_socket_stat.history = b_hist = nd_range(-((int64_t)1 << 59), (int64_t)1 << 59);
  _lf_rti_socket_stat.local_delay = b_delay = nd_range(0, (int64_t)1 << 58);
  _lf_rti_socket_stat.remote_physical_clock_snapshot_T1 = b_t1 = nd_range(0, (int64_t)1 << 58);
  _lf_rti_socket_stat.local_physical_clock_snapshot_T2 = b_t2 = nd_range(0, (int64_t)1 << 58);
  _lf_rti_socket_stat.received_T4_messages_in_current_sync_window = b_cnt = (int)nd_range(0, _LF_CLOCK_SYNC_EXCHANGES_PER_INTERVAL);
  _lf_rti_socket_stat.network_stat_sample_index = b_idx = (int)nd_range(0, _LF_CLOCK_SYNC_EXCHANGES_PER_INTERVAL - 1);
  ASSUME(b_idx <= b_cnt);
  _lf_rti_socket_UDP = 20;
}
void h_t1(void) {
  state();
  unsigned char b[9];
  int64_t t1 = t64(), t2 = nd_range(0, (int64_t)1 << 58);
  now_seq[0] = nd_range(t2, (int64_t)1 << 59);
  now_seq[1] = nd_i64();
  b[0] = MSG_TYPE_CLOCK_SYNC_T1;
  put64(b + 1, t1);
  wr_fail = nd_bool();
  _lf_my_fed_id = nd_i32();
  int r = handle_T1_clock_sync_message(b, 5, t2);
  CHECK((r == 0) == !wr_fail, "the reply's outcome is reported");
  if (r == 0) {
    CHECK(n_out == 1 && out_fd == 5 && out_n == 5 && out_b[0] == MSG_TYPE_CLOCK_SYNC_T3, "exactly one T3 reply on the same socket");
    uint32_t id = 0;
    for (int i = 0; i < 4; i++) id |= (uint32_t)out_b[1 + i] << (8 * i);
    CHECK(id == (uint32_t)_lf_my_fed_id, "the reply carries the federate's ID");
    CHECK(_lf_rti_socket_stat.remote_physical_clock_snapshot_T1 == t1 && _lf_rti_socket_stat.local_physical_clock_snapshot_T2 == t2, "T1 and T2 are recorded");
    CHECK(_lf_rti_socket_stat.local_delay == now_seq[0] - t2, "the local delay is the time from receipt to reply");
  }
  CHECK(_lf_clock_sync_offset == b_off && _lf_rti_socket_stat.history == b_hist && _lf_rti_socket_stat.received_T4_messages_in_current_sync_window == b_cnt,
        "T1 changes no estimate");
  COVER("t1");
}
#ifdef VF_ABSTRACT
/* STUB: calculate_socket_stat: any statistics (floating point is outside the decision, except "too noisy") */
static bool noisy;
lf_stat_ll abs_calculate_socket_stat(struct socket_stat_t* s) {
  lf_stat_ll r;
  r.average = nd_i64();
  r.standard_deviation = nd_i64();
  r.variance = nd_i64();
  r.max = nd_i64();
  noisy = r.standard_deviation >= CLOCK_SYNC_GUARD_BAND;
  return r;
}
#define NOISY noisy
#else
/* concrete search: samples of identical delay have no deviation; otherwise the window may be discarded */
#define NOISY (_lf_clock_sync_offset == b_off)
#endif
void h_t4(void) {
  state();
  const int N = _LF_CLOCK_SYNC_EXCHANGES_PER_INTERVAL;
  unsigned char b[9];
  int64_t t4 = nd_range(0, (int64_t)1 << 58), r4 = nd_range(0, (int64_t)1 << 58), t5 = nd_range(0, (int64_t)1 << 58);
#ifdef UDPMODE
  bool udp = UDPMODE;
#else
  bool udp = nd_bool();
#endif
  int fd = udp ? _lf_rti_socket_UDP : 5;
  now_seq[0] = now_seq[1] = nd_range(0, (int64_t)1 << 58);
  rd_fail = nd_bool();
  b[0] = MSG_TYPE_CLOCK_SYNC_T4;
  put64(b + 1, t4);
  in_b[0] = nd_u8();
  put64(in_b + 1, t5);
#ifdef VF_SEARCH
  for (int i = 0; i < N; i++) _lf_rti_socket_stat.network_stat_samples[i] = 0;
  b_idx = _lf_rti_socket_stat.network_stat_sample_index = 0;
#endif
  handle_T4_clock_sync_message(b, fd, r4);
  /* the exchange, in mathematical integers */
  int64_t rtt = (t4 - b_t1) - b_delay;
  int64_t half = rtt >= 0 ? rtt >> 1 : -((-rtt) >> 1);
  int64_t err = half - (b_t2 - b_t1);
  int64_t spacing = (now_seq[0] - r4) - (t5 - t4);
  if (spacing < 0) spacing = -spacing;
  bool probe = !udp || (!rd_fail && in_b[0] == MSG_TYPE_CLOCK_SYNC_CODED_PROBE);
  bool pure = !udp || spacing < CLOCK_SYNC_GUARD_BAND;
  socket_stat_t* s = &_lf_rti_socket_stat;
  CHECK(IMPLIES(!udp, n_in == 0), "initial synchronization consumes no probe");
  CHECK(IMPLIES(n_in > 0, in_fd == fd), "the probe is read from the same socket");
  if (!probe || !pure) {
    CHECK(_lf_clock_sync_offset == b_off && s->history == b_hist, "a rejected exchange changes neither estimate nor offset");
    CHECK(s->received_T4_messages_in_current_sync_window <= b_cnt + 1, "a rejected exchange does not advance the window by more than itself");
    if (probe) CHECK(s->received_T4_messages_in_current_sync_window == b_cnt, "an exchange with an impure probe does not count towards the window");
  } else {
    /* this exchange's share of the average: err / N, attenuated after start-up, truncated towards zero (N == ATTENUATION) */
    bool full = b_cnt + 1 >= N;
    bool moved = full ? _lf_clock_sync_offset != b_off : true;
    int64_t share = full ? _lf_clock_sync_offset - b_off - b_hist : s->history - b_hist;
    int64_t denom = udp ? (int64_t)N * _LF_CLOCK_SYNC_ATTENUATION : N;
    bool in_range = share >= -((int64_t)1 << 56) && share <= ((int64_t)1 << 56);
    int64_t rem = in_range ? err - (udp ? share * ((int64_t)N * _LF_CLOCK_SYNC_ATTENUATION) : share * N) : INT64_MAX;
    bool exact = in_range && (err >= 0 ? rem >= 0 && rem < denom : rem <= 0 && rem > -denom);
    if (full) {
      CHECK(exact || (NOISY && !moved), "at the end of a window the offset moves by exactly the accumulated average, and by nothing else");
      CHECK(s->history == 0 && s->received_T4_messages_in_current_sync_window == 0 && s->network_stat_sample_index == 0, "the window starts afresh");
    } else {
      CHECK(_lf_clock_sync_offset == b_off, "the offset changes only at the end of a window");
      CHECK(exact, "the average accumulates the filtered estimate");
      CHECK(s->received_T4_messages_in_current_sync_window == b_cnt + 1, "an accepted exchange counts once towards the window");
      CHECK(s->network_stat_sample_index <= s->received_T4_messages_in_current_sync_window, "samples stay within the window");
    }
  }
  CHECK(s->remote_physical_clock_snapshot_T1 == b_t1 && s->local_physical_clock_snapshot_T2 == b_t2 && s->local_delay == b_delay, "the exchange's timestamps are unchanged");
  COVER("t4");
  if (probe && pure && b_cnt + 1 >= _LF_CLOCK_SYNC_EXCHANGES_PER_INTERVAL) COVER("end of window");
}
void h_offset(void) {
  _lf_clock_sync_offset = nd_range(NEVER / 4, FOREVER / 4);
  _lf_clock_sync_constant_bias = nd_range(NEVER / 4, FOREVER / 4);
  int64_t v = nd_i64(), t = v, c = _lf_clock_sync_offset + _lf_clock_sync_constant_bias;
  clock_sync_add_offset(&t);
  CHECK(t == spec_time_add(v, c), "the offset is added exactly");
  t = v;
  clock_sync_subtract_offset(&t);
  CHECK(t == spec_time_add(v, -c), "the offset is subtracted exactly");
  COVER("offset");
}
void h_adjust(void) {
  int64_t a = t64();
  _lf_clock_sync_offset = b_off = t64();
  adjust_lf_clock_sync_offset(a);
  CHECK(_lf_clock_sync_offset == b_off + a, "the adjustment is added to the offset");
  socket_stat_t s;
  s.received_T4_messages_in_current_sync_window = nd_i32();
  s.history = nd_i64();
  s.network_stat_sample_index = nd_i32();
  reset_socket_stat(&s);
  CHECK(s.received_T4_messages_in_current_sync_window == 0 && s.history == 0 && s.network_stat_sample_index == 0, "a fresh window is empty");
  COVER("adjust");
}
/* initial synchronization: exactly one exchange after another */
#ifdef VF_ABSTRACT
static int n_t1, n_t4, n_rd;
/* STUB: in the proof of initial synchronization, handle_T1/T4 and the reads are known by their contracts */
void abs_read_from_socket_fail_on_error(int* s, size_t n, unsigned char* b, lf_mutex_t* m, char* f, ...) {
  n_rd++;
  CHECK(n == 9 && *s == 5, "a whole message is read from the given socket");
  b[0] = nd_u8();
}
int abs_handle_T1_clock_sync_message(unsigned char* b, int s, instant_t t2) {
  CHECK(b[0] == MSG_TYPE_CLOCK_SYNC_T1 && s == 5, "T1 handles a T1 message");
  CHECK(n_t1 == n_t4, "exchanges do not overlap");
  n_t1++;
  return (int)nd_range(-1, 0);
}
void abs_handle_T4_clock_sync_message(unsigned char* b, int s, instant_t r4) {
  CHECK(b[0] == MSG_TYPE_CLOCK_SYNC_T4 && s == 5, "T4 handles a T4 message");
  CHECK(n_t1 == n_t4 + 1, "T4 follows its T1");
  n_t4++;
}
#endif
void h_initial(void) {
#ifdef VF_ABSTRACT
  int s = 5;
  _lf_rti_socket_UDP = 20;
  synchronize_initial_physical_clock_with_rti(&s);
  CHECK(n_t1 == _LF_CLOCK_SYNC_EXCHANGES_PER_INTERVAL && n_t4 == n_t1 && n_rd == 2 * n_t1, "exactly one full window of exchanges");
  COVER("initial");
#endif
}
