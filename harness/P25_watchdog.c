/* P25: watchdogs.  Real code: core/threaded/watchdog.c */
#include "vf.h"
#include "vf_env_min.h"
#include "low_level_platform.h"
#include "lf_types.h"
#include "environment.h"
#include "watchdog.h"
#include "util.h"
#include "clock.h"
#include "tag.h"
watchdog_t* W;
self_base_t* B;
lf_mutex_t mtx;
int g_held;
_Bool g_rearmed;     /* started since the handler last ran */
instant_t g_time;    /* latest clock reading */
int g_fired, g_cond_waits;
_Bool g_signaled;
/* STUB: lf_mutex_*, lf_cond_*, lf_clock_cond_timedwait: the reactor mutex is released while waiting, and other threads may
 * then start, restart, stop or terminate the watchdog any number of times */
static void others(void) {
  if (nd_bool()) {
    instant_t e = nd_i64();
    if (e != W->expiration && e != NEVER) g_rearmed = true;
    W->expiration = e;
    if (nd_bool()) {
      W->terminate = true;
      W->expiration = NEVER;
    }
  }
}
int lf_mutex_init(lf_mutex_t* m) { return 0; }
int lf_cond_init(lf_cond_t* c, lf_mutex_t* m) { return 0; }
int lf_mutex_lock(lf_mutex_t* m) {
  CHECK(g_held == 0, "the mutex is not taken twice");
  g_held = 1;
  if (W) others();
  return 0;
}
int lf_mutex_unlock(lf_mutex_t* m) {
  CHECK(g_held == 1, "the mutex is released only while held");
  g_held = 0;
  return 0;
}
static void may_sleep(void) {
  CHECK(g_held == 1, "waiting happens with the mutex held");
  CHECK(!W->terminate, "a terminated watchdog does not sleep");
}
int lf_cond_wait(lf_cond_t* c) {
  may_sleep();
  CHECK(W->expiration == NEVER, "a running watchdog never sleeps without a deadline");
  CHECK(!W->active, "a watchdog that sleeps indefinitely is marked inactive, so that a start wakes it");
  CHECK(c == &W->cond, "it waits on its own condition");
  others();
  return 0;
}
int lf_clock_cond_timedwait(lf_cond_t* c, instant_t t) {
  may_sleep();
  CHECK(W->expiration != NEVER && g_time < W->expiration, "a watchdog past its deadline does not sleep again");
  CHECK(t <= W->expiration, "it sleeps no longer than until its deadline");
  CHECK(c == &W->cond, "it waits on its own condition");
  others();
  return (int)nd_range(0, 1);
}
int lf_cond_signal(lf_cond_t* c) {
  CHECK(W == NULL || c == &W->cond, "the watchdog's own condition is signalled");
  g_signaled = true;
  return 0;
}
int lf_cond_broadcast(lf_cond_t* c) { return lf_cond_signal(c); }
/* STUB: lf_time_physical: any non-decreasing value */
instant_t lf_time_physical(void) {
  instant_t t = nd_i64();
  ASSUME(t >= g_time && t != NEVER);
  g_time = t;
  return t;
}
int g_created, g_joined;
watchdog_t* pool[3];
int lf_thread_create(lf_thread_t* t, void* (*f)(void*), void* a) {
  CHECK(g_created < 3 && a == (void*)pool[g_created], "one thread per watchdog");
  g_created++;
  return 0;
}
int lf_thread_join(lf_thread_t t, void** r) {
  CHECK(g_held == 0, "a watchdog thread is joined without holding its mutex");
  CHECK(g_joined < 3 && pool[g_joined]->terminate && pool[g_joined]->expiration == NEVER && g_signaled,
        "a watchdog thread is joined only after it was told to terminate");
  g_joined++;
  g_signaled = false;
  return 0;
}
void initialize_lf_thread_id() {}
#include "core/threaded/watchdog.c"

static void handler(void* self) {
  CHECK(self == (void*)B, "the handler gets its reactor");
  CHECK(g_held == 1, "the handler runs with the mutex held");
  CHECK(!W->terminate, "a terminated watchdog never fires");
  CHECK(W->expiration != NEVER, "a stopped watchdog never fires");
  CHECK(g_time >= W->expiration, "a watchdog fires only after its deadline");
  CHECK(g_rearmed, "a watchdog fires once per start");
  g_rearmed = false;
  g_fired = g_fired < 1000 ? g_fired + 1 : g_fired;
}
static environment_t env;
static void begin(void) {
  W = malloc(sizeof(watchdog_t));
  B = malloc(sizeof(self_base_t));
  ASSUME(W && B);
  B->reactor_mutex = &mtx;
  B->environment = &env;
  W->base = B;
  W->watchdog_function = handler;
  W->active = nd_bool();
  W->terminate = nd_bool();
  W->expiration = nd_i64();
  g_held = 0;
  g_fired = 0;
  g_signaled = false;
  g_time = nd_i64();
  g_rearmed = W->expiration != NEVER;
  ASSUME(g_time != NEVER);
}
void h_wait(void) {
  begin();
  g_held = 1;
  ASSUME(!W->terminate && W->expiration != NEVER);
  watchdog_wait(W);
  CHECK(W->terminate || W->expiration == NEVER || g_time >= W->expiration, "the wait ends only at the deadline, a stop or termination");
  CHECK(g_held == 1, "the mutex is still held");
  COVER("wait");
}
#ifdef VF_ABSTRACT
/* STUB: in the proof of watchdog_thread_main, watchdog_wait is known by its contract (h_wait) */
void abs_watchdog_wait(watchdog_t* w) {
  CHECK(w == W && g_held == 1 && !W->terminate && W->expiration != NEVER, "the wait starts for a running watchdog");
  w->active = true;
  lf_time_physical();
  others();
  ASSUME(W->terminate || W->expiration == NEVER || g_time >= W->expiration);
}
#endif
void h_thread(void) {
  begin();
  watchdog_thread_main(W);
  CHECK(W->terminate, "the thread ends only when told to");
  CHECK(g_held == 0, "the mutex is released at the end");
  CHECK(!W->active, "a terminated watchdog is inactive");
  COVER("thread");
}
static bool b_active;
void h_control(void) {
  begin();
  g_held = 1;
  b_active = W->active;
  W->min_expiration = nd_range(0, FOREVER / 4);
  env.current_tag.time = nd_range(0, FOREVER / 4);
  interval_t add = nd_range(-FOREVER / 4, FOREVER / 4);
  int what = (int)nd_range(0, 2);
  if (what == 0) {
    lf_watchdog_start(W, add);
    CHECK(W->expiration == env.current_tag.time + W->min_expiration + add, "a start sets the deadline to logical time plus the timeouts");
    CHECK(!W->terminate, "a start clears the termination flag");
    CHECK(IMPLIES(!b_active, g_signaled), "a start wakes a sleeping watchdog");
  } else if (what == 1) {
    bool t = W->terminate;
    lf_watchdog_stop(W);
    CHECK(W->expiration == NEVER && W->terminate == t, "a stop removes the deadline");
  } else {
    _lf_watchdog_terminate(W);
    CHECK(W->expiration == NEVER && W->terminate && g_signaled, "termination removes the deadline and wakes the thread");
  }
  CHECK(g_held == 1 && W->active == b_active, "control functions neither release the mutex nor claim activity");
  COVER("control");
}
void h_all(void) {
  env.watchdogs_size = (int)nd_range(0, 3);
  env.watchdogs = pool;
  W = NULL;
  g_held = g_created = g_joined = 0;
  for (int i = 0; i < 3; i++) {
    pool[i] = malloc(sizeof(watchdog_t));
    pool[i]->base = malloc(sizeof(self_base_t));
    pool[i]->base->reactor_mutex = &mtx;
    pool[i]->base->environment = &env;
    pool[i]->terminate = false;
    pool[i]->expiration = nd_i64();
  }
  if (nd_bool()) {
    _lf_initialize_watchdogs(&env);
    CHECK(g_created == env.watchdogs_size, "every watchdog gets its thread");
  } else {
    g_signaled = false;
    _lf_watchdog_terminate_all(&env);
    CHECK(g_joined == env.watchdogs_size && g_held == 0, "every watchdog thread is told to terminate and joined");
  }
  COVER("all");
}
