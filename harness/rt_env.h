/* The runtime (core/*.c and lib/schedule.c, real text) in one translation unit over a ghost platform.
 * STUB: lf_mutex_*, lf_cond_*: vf_lock.h (ghost hold counts; the harness defines vf_on_lock and vf_wait_effect)
 * STUB: lf_clock_gettime: any non-decreasing value (g_now)
 * STUB: lf_atomic_fetch_add: atomic, vf_atomic_effect() lets other threads act before and after */
#ifndef RT_ENV_H
#define RT_ENV_H
#include "vf_env_min.h"
#define INITIAL_EVENT_QUEUE_SIZE 2
#define INITIAL_REACT_QUEUE_SIZE 2
#ifdef FEDERATED
#define _LF_FEDERATE_NAMES_COMMA_SEPARATED "a,b,c"
#endif
#include "low_level_platform.h"
#include "lf_types.h"
#include "environment.h"
#include "tag_spec.h"
#ifndef LF_SINGLE_THREADED
#include "vf_lock.h"
#else
int lf_disable_interrupts_nested() { return 0; }
int lf_enable_interrupts_nested() { return 0; }
int _lf_single_threaded_notify_of_event() { return 0; }
#endif
#ifndef RT_OWN_CLOCK
static instant_t g_now;
int lf_clock_gettime(instant_t* t) {
  instant_t n = nd_i64();
  ASSUME(n >= g_now && n < FOREVER / 4);
  g_now = n;
  *t = n;
  return 0;
}
#endif
#ifndef RT_ATOMIC_EFFECT
static void vf_atomic_effect(void) {}
#else
static void vf_atomic_effect(void);
#endif
int lf_atomic_fetch_add(int* p, int v) {
  vf_atomic_effect();
  int o = *p;
  *p = (int)((unsigned)o + (unsigned)v);
  vf_atomic_effect();
  return o;
}
#ifndef RT_OWN_ENVS
static environment_t* g_envs;
static int g_num_envs;
int _lf_get_environments(environment_t** e) {
  *e = g_envs;
  return g_num_envs;
}
#endif
#include "core/tag.c"
#include "core/utils/vector.c"
#include "core/utils/pqueue_base.c"
#include "core/utils/pqueue_tag.c"
#include "core/utils/pqueue.c"
#include "core/utils/hashset/hashset.c"
#include "core/utils/hashset/hashset_itr.c"
#include "core/lf_token.c"
#include "core/port.c"
#include "core/environment.c"
#include <signal.h>
#define signal(s, h) ((void)0) /* in lf_reactor_c_main only, which is not under contract */
#ifdef RT_HOOKS
#include RT_HOOKS
#endif
#include "lib/schedule.c"
#ifdef RT_HOOKS1
#include RT_HOOKS1
#endif
#include "core/reactor_common.c"
#ifdef RT_HOOKS2
#include RT_HOOKS2
#endif
#ifdef LF_SINGLE_THREADED
#include "core/reactor.c"
#else
#include "core/threaded/reactor_threaded.c"
#endif
#ifdef MODAL_REACTORS
#include "core/modal_models/modes.c"
#endif
#ifdef RT_FED
#include "core/federated/federate.c"
#endif
#endif
