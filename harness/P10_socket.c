/* P10: socket transfers deliver every byte in order or report failure.  Real code: core/federated/network/net_util.c */
#include "vf.h"
#include "vf_env_min.h"
#include <errno.h>
#include <unistd.h>
#include <sys/socket.h>
#include "net_util.h"
#include "lf_types.h"
/* STUB: read/write: any result the system call may give for these arguments: a count in 0..n, or -1 with any errno */
/* STUB: shutdown/close/lf_sleep/lf_mutex_unlock: recorded */
size_t g_pos, g_total;       /* bytes transferred, bytes asked for */
unsigned char* g_base;
int g_fd;
_Bool g_eof, g_hard, g_active;
#ifndef VF_REPLAY
int errno_loc;
int* __errno_location(void) { return &errno_loc; }
#endif
#ifdef VF_SEARCH
#define MAX_TOTAL 3
#else
#define MAX_TOTAL ((size_t)1 << 40)
#endif
static ssize_t transfer(int fd, const void* buf, size_t n, bool writing) {
  CHECK(fd == g_fd, "the given descriptor is used");
  CHECK((const unsigned char*)buf == g_base + g_pos && n == g_total - g_pos,
        "each call asks for exactly the bytes not yet transferred, in order");
  CHECK(!g_eof && !g_hard, "nothing is transferred after a failure");
  ssize_t r = nd_range(-1, (int64_t)n);
  if (r < 0) {
    errno = (int)nd_range(1, 133);
    if (errno != EAGAIN && errno != EWOULDBLOCK && errno != EINTR) g_hard = true;
  } else if (r == 0) {
    if (writing) errno = (int)nd_range(0, 133);
    else g_eof = true;
  } else {
    if (nd_bool()) errno = (int)nd_range(0, 133); /* errno is meaningless after success */
    g_pos += (size_t)r;
  }
  return r;
}
ssize_t read(int fd, void* buf, size_t n) { return transfer(fd, buf, n, false); }
ssize_t write(int fd, const void* buf, size_t n) { return transfer(fd, buf, n, true); }
int n_close, n_shut, n_unlock, fd_close, fd_shut;
int close(int fd) { n_close++; fd_close = fd; return 0; }
int shutdown(int fd, int how) { n_shut++; fd_shut = fd; return 0; }
int lf_sleep(interval_t d) { return 0; }
int lf_mutex_unlock(lf_mutex_t* m) { n_unlock++; return 0; }
#include "core/federated/network/net_util.c"
static unsigned char* begin(int fd) {
  size_t n = (size_t)nd_range(0, (int64_t)MAX_TOTAL);
  unsigned char* b = malloc(n);
  ASSUME(b != NULL);
  g_base = b;
  g_total = n;
  g_pos = 0;
  g_eof = g_hard = false;
  g_fd = fd;
  errno = 0;
  return b;
}
static void post(int r, const char* what) {
  CHECK((r == 0) == (g_pos == g_total && !g_hard && !g_eof && g_fd >= 0) || (r == 0 && g_total == 0),
        "success is reported exactly when all bytes were transferred");
  CHECK(IMPLIES(r == 0, g_pos == g_total), "success means every byte was transferred");
  CHECK(IMPLIES(r != 0, g_eof || g_hard || g_fd < 0), "failure is reported only after end of stream or a hard error");
}
void h_read(void) {
  int fd = (int)nd_range(-1, 100);
  unsigned char* b = begin(fd);
  int r = read_from_socket(fd, g_total, b);
  post(r, "read");
  CHECK(IMPLIES(fd < 0, r != 0 && g_pos == 0), "a closed descriptor is a failure");
  COVER("read");
}
void h_write(void) {
  int fd = (int)nd_range(-1, 100);
  unsigned char* b = begin(fd);
  int r = write_to_socket(fd, g_total, b);
  post(r, "write");
  CHECK(IMPLIES(fd < 0, r != 0 && g_pos == 0), "a closed descriptor is a failure");
  COVER("write");
}
/* the closing variants, from the contract of read_from_socket / write_to_socket */
static int xfer_result;
#ifdef VF_ABSTRACT
/* STUB: in the proofs of the closing variants, read_from_socket/write_to_socket are known by their contract */
int abs_read_from_socket(int socket, size_t n, unsigned char* buf) {
  CHECK(socket == g_fd && n == g_total && buf == g_base, "the whole transfer is requested once");
  xfer_result = socket < 0 ? -1 : (int)nd_range(-1, 1);
  return xfer_result;
}
int abs_write_to_socket(int socket, size_t n, unsigned char* buf) { return abs_read_from_socket(socket, n, buf); }
#define FAILED (xfer_result != 0)
#else
#define FAILED (g_pos != g_total || (g_fd < 0))
#endif
static void post_close(int r, int fd, int s) {
  CHECK((r != 0) == FAILED, "the transfer's outcome is reported");
  if (r != 0) {
    CHECK(s == -1, "a failed descriptor is marked closed");
    CHECK(n_close == 1 && fd_close == fd, "a failed descriptor is closed once");
  } else
    CHECK(s == fd && n_close == 0 && n_shut == 0, "a healthy descriptor stays open");
}
void h_read_close(void) {
  int fd = (int)nd_range(-1, 100), s = fd;
  unsigned char* b = begin(fd);
  int r = read_from_socket_close_on_error(&s, g_total, b);
  post_close(r, fd, s);
  COVER("read_close");
}
void h_write_close(void) {
  int fd = (int)nd_range(-1, 100), s = fd;
  unsigned char* b = begin(fd);
  int r = write_to_socket_close_on_error(&s, g_total, b);
  post_close(r, fd, s);
  COVER("write_close");
}
static lf_mutex_t mtx;
void h_write_fail(void) {
  int fd = (int)nd_range(-1, 100), s = fd;
  unsigned char* b = begin(fd);
  lf_mutex_t* m = nd_bool() ? &mtx : NULL;
  write_to_socket_fail_on_error(&s, g_total, b, m, NULL);
  CHECK((s != fd || fd < 0) == FAILED, "the descriptor is marked closed exactly on failure");
  CHECK(n_unlock == ((FAILED && m) ? 1 : 0), "the mutex is released exactly on failure");
  COVER("write_fail");
}
void h_read_fail(void) {
  int fd = (int)nd_range(-1, 100), s = fd;
  unsigned char* b = begin(fd);
  read_from_socket_fail_on_error(&s, g_total, b, nd_bool() ? &mtx : NULL, NULL);
  CHECK(!FAILED && s == fd, "the call returns only if everything was read");
  CHECK(n_unlock == 0, "the mutex stays held on success");
  COVER("read_fail");
}
