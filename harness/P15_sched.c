/* P15: handing out reactions.  Real code: core/threaded/scheduler_NP.c or scheduler_GEDF_NP.c, scheduler_instance.c.
 * One worker out of at most 3 acts on an arbitrary scheduler state (invariant Inv: every level holds exactly its queued
 * reactions); L levels, NR reactions.
 * STUB: lf_semaphore_*: counted; waiting lets the last idle worker distribute (any later state satisfying Inv)
 * STUB: lf_atomic_*: atomic; another worker may trigger the same or another reaction just before
 * STUB: _lf_sched_advance_tag_locked: the next tag triggers any reactions through the real lf_scheduler_trigger_reaction
 * STUB: lf_stall_advance_level_federation: waits until the level may run; meanwhile a message may trigger a reaction of that level or a later one */
#include "vf.h"
#ifndef L
#define L 2
#endif
#ifndef NR
#define NR 2
#endif
#define VF_LOCKS 4
#define INITIAL_REACT_QUEUE_SIZE NR
#include "vf_env_min.h"
#include "low_level_platform.h"
#include "lf_types.h"
#include "environment.h"
#include "vf_lock.h"
#include "lf_semaphore.h"
#if SCHEDULER == SCHED_GEDF_NP
#include "pqueue.h"
/* STUB: the reaction queue is known by its contract (P13): it holds what was inserted and not popped; the front is a minimal element until the queue changes */
static pqueue_t pq;
static reaction_t* pqe[NR + 1];
static int pqn, pqf = -1;
pqueue_t* pqueue_init(size_t n, pqueue_cmp_pri_f a, pqueue_get_pri_f b, pqueue_get_pos_f c, pqueue_set_pos_f d, pqueue_eq_elem_f e, pqueue_print_entry_f f) {
  CHECK(a == in_reverse_order && b == get_reaction_index, "the queue is ordered by reaction index");
  return &pq;
}
int pqueue_insert(pqueue_t* p, void* e) {
  CHECK(p == &pq && pqn < NR && e, "no reaction is queued twice");
  pqe[pqn++] = (reaction_t*)e;
  pqf = -1;
  return 0;
}
void* pqueue_peek(pqueue_t* p) {
  if (pqn == 0) return NULL;
  if (pqf < 0) {
    pqf = (int)nd_range(0, NR - 1);
    ASSUME(pqf < pqn);
    for (int i = 0; i < NR; i++)
      if (i < pqn) ASSUME(pqe[pqf]->index <= pqe[i]->index);
  }
  return pqe[pqf];
}
void* pqueue_pop(pqueue_t* p) {
  void* e = pqueue_peek(p);
  if (e) {
    pqe[pqf] = pqe[--pqn];
    pqf = -1;
  }
  return e;
}
void pqueue_free(pqueue_t* p) {}
#include "core/utils/pqueue.c"
#endif
#ifndef SCHEDULER
#define SCHEDULER SCHED_NP
#endif
static environment_t the_env;
static environment_t* env = &the_env;
int lf_atomic_add_fetch(int* p, int v) { return *p = (int)((unsigned)*p + (unsigned)v); }
static void before_insert(int* p);
static void before_cas(int* p);
int lf_atomic_fetch_add(int* p, int v) {
  before_insert(p);
  int o = *p;
  *p = (int)((unsigned)o + (unsigned)v);
  return o;
}
bool lf_atomic_bool_compare_and_swap(int* p, int o, int n) {
  before_cas(p);
  if (*p != o) return false;
  *p = n;
  return true;
}
int lf_critical_section_enter(environment_t* e) { return lf_mutex_lock(&e->mutex); }
int lf_critical_section_exit(environment_t* e) { return lf_mutex_unlock(&e->mutex); }
static int released, n_release;
static lf_semaphore_t sem;
lf_semaphore_t* lf_semaphore_new(size_t n) {
  CHECK(n == 0, "no worker starts before work is distributed");
  return &sem;
}
void lf_semaphore_release(lf_semaphore_t* s, size_t n) {
  CHECK(s == &sem && n <= 1000, "workers are woken through the semaphore");
  released += (int)n;
  n_release++;
}
void lf_semaphore_destroy(lf_semaphore_t* s) {}
#include "core/threaded/scheduler_instance.c"
bool _lf_sched_advance_tag_locked(lf_scheduler_t* s);
#if SCHEDULER == SCHED_GEDF_NP
#include "core/threaded/scheduler_GEDF_NP.c"
#else
#include "core/threaded/scheduler_NP.c"
#endif
static lf_scheduler_t* s;
static reaction_t* r[NR];
#ifndef LEVS
#define LEVS {0, 1, 1}
#endif
static const int lev[NR] = LEVS;
static bool q[NR];   /* queued and not handed out: at the current tag */
static bool run_[NR]; /* handed out, being executed by some worker */
static int n_tags, n_waits, stalled;
static bool stopping;
static int who(reaction_t* x) {
  for (int i = 0; i < NR; i++)
    if (x == r[i]) return i;
  return -1;
}
static int count(int l) {
  int n = 0;
  for (int i = 0; i < NR; i++)
    if (q[i] && lev[i] == l) n++;
  return n;
}
static bool in_wait, before;
#if SCHEDULER == SCHED_GEDF_NP
static void put(int i) {
  r[i]->status = queued;
  q[i] = true;
  pqueue_insert(s->custom_data->reaction_q, r[i]);
}
static bool inv(void) {
  for (int i = 0; i < NR; i++) {
    int n = 0;
    for (int k = 0; k < NR; k++)
      if (k < pqn && pqe[k] == r[i]) n++;
    if (n != (q[i] ? 1 : 0)) return false;
    if ((r[i]->status == queued) != (q[i] || run_[i])) return false;
  }
  return s->number_of_idle_workers < s->number_of_workers;
}
static int level_now(void) { return (int)s->custom_data->current_level; }
#else
static void put(int i) {
  r[i]->status = queued;
  q[i] = true;
  if (s->indexes[lev[i]] < 0) s->indexes[lev[i]] = 0;
  s->custom_data->triggered_reactions[lev[i]][s->indexes[lev[i]]++] = r[i];
}
static int level_now(void) { return (int)s->custom_data->next_reaction_level - 1; }
/* each level holds exactly its queued reactions, and nothing is left behind the current level */
static bool inv(void) {
  for (int l = 0; l < L; l++) {
    int n = s->indexes[l], c = count(l);
    if (l == level_now() ? (n < 0 ? c != 0 : c != n) : c != n) return false;
    if (l < level_now() && n != 0) return false;
    for (int k = 0; k < NR; k++) {
      if (k < c) {
        int i = who(s->custom_data->triggered_reactions[l][k]);
        if (i < 0 || !q[i] || lev[i] != l) return false;
        for (int m = 0; m < k; m++)
          if (s->custom_data->triggered_reactions[l][m] == r[i]) return false;
      } else {
        int size = 0;
        for (int i = 0; i < NR; i++)
          if (lev[i] == l) size++;
        if (k < size && s->custom_data->triggered_reactions[l][k] != NULL) return false;
      }
    }
  }
  for (int i = 0; i < NR; i++)
    if ((r[i]->status == queued) != (q[i] || run_[i])) return false;
  return true;
}
#endif
static int target = -1; /* the reaction this worker is triggering */
static bool racing;
static void before_cas(int* p) {
  if (racing && target >= 0 && p == (int*)&r[target]->status && !q[target] && !run_[target] && nd_bool()) put(target);
}
static void before_insert(int* p) {
  if (racing)
    for (int i = 0; i < NR; i++)
      if (i != target && !q[i] && !run_[i] && lev[i] > level_now() && nd_bool()) put(i);
}
static void vf_on_lock(void* m) {}
bool _lf_sched_advance_tag_locked(lf_scheduler_t* x) {
  CHECK(x == s && vf_holds(&env->mutex) == 1, "the tag advances under the environment's lock");
  for (int i = 0; i < NR; i++) CHECK(!q[i] && !run_[i], "the tag advances only when every reaction of the tag is done");
#if SCHEDULER == SCHED_GEDF_NP
  CHECK(s->number_of_idle_workers == s->number_of_workers - 1, "the tag advances only when all other workers are idle");
#else
  CHECK(s->number_of_idle_workers == s->number_of_workers, "the tag advances only when all workers are idle");
#endif
  n_tags++;
  stalled = -1;
  if (n_tags == 2 || nd_bool()) {
    stopping = true;
    return true;
  }
  for (int i = 0; i < NR; i++)
    if (nd_bool()) {
      lf_scheduler_trigger_reaction(s, r[i], -1);
      q[i] = true;
      if (nd_bool()) lf_scheduler_trigger_reaction(s, r[i], -1);
    }
  return false;
}
#ifdef FEDERATED
static void stall(size_t l) {
  stalled = (int)l;
  for (int i = 0; i < NR; i++)
    if (!q[i] && !run_[i] && lev[i] >= (int)l && nd_bool()) {
      lf_scheduler_trigger_reaction(s, r[i], -1);
      q[i] = true;
    }
}
void lf_stall_advance_level_federation(environment_t* e, size_t l) {
  CHECK(e == env && vf_lock_total == 0, "a level is waited for without holding locks");
  stall(l);
}
void lf_stall_advance_level_federation_locked(size_t l) {
  CHECK(vf_lock_total == 1, "a level is waited for holding the lock once");
  stall(l);
}
#endif
/* the last worker to become idle distributes, or another worker proceeds, while this one waits */
static void others(void) {
  if (n_waits++ || nd_bool()) {
    s->should_stop = stopping = true;
    return;
  }
#if SCHEDULER == SCHED_GEDF_NP
  for (int i = 0; i < NR; i++) {
    if (run_[i] && nd_bool()) {
      run_[i] = false;
      r[i]->status = inactive;
    }
    if (!q[i] && !run_[i] && nd_bool()) put(i);
  }
  s->number_of_idle_workers = 1; /* this one: the others are awake */
  s->custom_data->current_level = (size_t)nd_range(0, L - 1);
#else
  s->indexes[level_now()] = 0;
  s->custom_data->next_reaction_level = (size_t)nd_range(1, L);
  for (int l = 0; l < L; l++) {
    int size = 0;
    for (int i = 0; i < NR; i++)
      if (lev[i] == l) s->custom_data->triggered_reactions[l][size++] = NULL;
    s->indexes[l] = 0;
  }
  for (int i = 0; i < NR; i++) {
    run_[i] = false;
    q[i] = false;
    r[i]->status = inactive;
  }
  for (int i = 0; i < NR; i++)
    if (lev[i] >= level_now() && nd_bool()) put(i);
  s->custom_data->executing_reactions = s->custom_data->triggered_reactions[level_now()];
  s->number_of_idle_workers = 0;
#endif
  stalled = level_now();
}
void lf_semaphore_acquire(lf_semaphore_t* x) {
  CHECK(x == &sem && vf_lock_total == 0, "a worker waits without holding locks");
  CHECK(s->number_of_idle_workers < s->number_of_workers, "the last worker to become idle never waits");
  others();
}
static void vf_wait_effect(lf_cond_t* c) {
  CHECK(s->number_of_idle_workers < s->number_of_workers, "the last worker to become idle never waits");
  others();
}
static void setup(void) {
  env->scheduler = NULL;
  size_t sizes[L];
  for (int l = 0; l < L; l++) sizes[l] = 0;
  for (int i = 0; i < NR; i++) {
    r[i] = (reaction_t*)vf_alloc(sizeof(reaction_t));
    r[i]->status = inactive;
#if SCHEDULER == SCHED_GEDF_NP
    r[i]->index = ((index_t)nd_range(0, 3) << 16) | (index_t)lev[i];
#else
    r[i]->index = (index_t)(nd_u64() & ~0xffffULL) | (index_t)lev[i];
#endif
    r[i]->name = "r";
    q[i] = run_[i] = false;
    sizes[lev[i]]++;
  }
  sched_params_t p;
  p.num_reactions_per_level = sizes;
  p.num_reactions_per_level_size = L;
  size_t w = (size_t)nd_range(1, 3);
  lf_sched_init(env, w, &p);
  s = env->scheduler;
  CHECK(s != NULL && s->env == env && s->number_of_workers == w && s->max_reaction_level == L - 1 && !s->should_stop, "the scheduler knows its workers and levels");
  CHECK(s->number_of_idle_workers == 0 && level_now() == 0, "execution starts at level 0 with all workers at work");
  CHECK(vf_lock_total == 0, "locks are released");
  lf_scheduler_t* s0 = s;
  lf_sched_init(env, w, &p);
  CHECK(env->scheduler == s0 && vf_lock_total == 0, "initialising twice changes nothing");
  CHECK(inv(), "nothing is queued at first");
}
/* an arbitrary moment of an execution */
static void moment(void) {
#if SCHEDULER == SCHED_GEDF_NP
  s->custom_data->current_level = (size_t)nd_range(0, L - 1);
  for (int i = 0; i < NR; i++) {
    if (nd_bool()) put(i);
    else if (nd_bool()) {
      run_[i] = true;
      r[i]->status = queued;
    }
  }
#else
  s->custom_data->next_reaction_level = (size_t)nd_range(1, L);
  s->custom_data->executing_reactions = s->custom_data->triggered_reactions[level_now()];
  for (int i = 0; i < NR; i++) {
    if (lev[i] >= level_now() && nd_bool()) put(i);
    else if (lev[i] == level_now() && nd_bool()) {
      run_[i] = true;
      r[i]->status = queued;
    }
  }
  if (count(level_now()) == 0 && nd_bool()) s->indexes[level_now()] = -(int)s->number_of_workers;
#endif
  stalled = level_now();
  s->number_of_idle_workers = (size_t)nd_range(0, 2);
  ASSUME(s->number_of_idle_workers < s->number_of_workers);
  int running_ = 0;
  for (int i = 0; i < NR; i++) running_ += run_[i];
  ASSUME(running_ + (int)s->number_of_idle_workers <= (int)s->number_of_workers - 1);
  ASSUME(inv());
}
void h_trigger(void) {
  setup();
  moment();
  target = (int)nd_range(0, NR - 1);
  bool had = q[target], ran = run_[target];
#ifdef FEDERATED
  ASSUME(lev[target] >= level_now());
#else
  ASSUME(lev[target] > level_now() || had || ran);
#endif
  racing = true;
  lf_scheduler_trigger_reaction(s, r[target], 0);
  if (!ran) q[target] = true;
  CHECK(inv(), "a triggered reaction is queued exactly once at its level, and nothing else changes");
  lf_scheduler_trigger_reaction(s, r[target], 0);
  lf_scheduler_trigger_reaction(s, NULL, 0);
  CHECK(inv(), "triggering it again changes nothing");
  CHECK(vf_lock_total == 0, "locks are released");
  COVER("trigger");
}
void h_get(void) {
  setup();
  moment();
  s->should_stop = stopping = nd_bool();
  released = n_release = 0;
  n_tags = n_waits = 0;
  size_t idle0 = s->number_of_idle_workers;
  vf_n_signal = vf_n_broadcast = 0;
  reaction_t* x = lf_sched_get_ready_reaction(s, 0);
  CHECK(vf_lock_total == 0, "locks are released");
  if (x == NULL) {
    CHECK(s->should_stop && stopping, "a worker ends only when execution is to stop");
#if SCHEDULER == SCHED_GEDF_NP
    if (n_tags && !n_waits) CHECK(vf_n_broadcast > 0, "all workers are told to stop");
#else
    if (n_tags && !n_waits) CHECK(released == (int)s->number_of_workers - 1, "all workers are told to stop");
#endif
  } else {
    int i = who(x);
    CHECK(i >= 0 && q[i] && !run_[i] && x->status == queued, "only a queued reaction is handed out");
    q[i] = false;
    run_[i] = true;
    CHECK(inv(), "it is handed out once, and the others stay queued");
    CHECK(lev[i] == level_now(), "it is of the current level");
#ifdef FEDERATED
    CHECK(stalled == lev[i], "its level has been waited for");
#endif
#if SCHEDULER == SCHED_GEDF_NP
    for (int k = 0; k < NR; k++)
      if (q[k]) CHECK(r[k]->index >= x->index, "the reaction of the earliest deadline is handed out first");
    for (int k = 0; k < NR; k++)
      if (q[k] && lev[k] == lev[i] && s->number_of_idle_workers > 0) {
        bool least = true;
        for (int m = 0; m < NR; m++)
          if (q[m] && r[m]->index <= r[k]->index && lev[m] != lev[i]) least = false;
        if (least) CHECK(vf_n_signal > 0, "an idle worker is woken for the next reaction");
      }
#else
    for (int k = 0; k < NR; k++) CHECK(!q[k] || lev[k] >= lev[i], "no reaction of a lower level is left");
    if (n_release || (released == 0 && n_tags)) {
      int c = count(lev[i]) + 1, w = (int)s->number_of_workers;
      CHECK((int)s->number_of_idle_workers == w - (c < w ? c : w) && released == w - (int)s->number_of_idle_workers - 1, "as many workers are woken as there are reactions for them");
    }
#endif
    CHECK(!stopping, "nothing is handed out after the end");
    for (int k = 0; k < NR; k++)
      if (k != i && n_tags && !n_waits) CHECK(!run_[k], "a new tag starts with nothing running");
    reaction_t* d = x;
    lf_sched_done_with_reaction(0, d);
    run_[i] = false;
    CHECK(d->status == inactive && inv(), "a reaction that is done can be triggered again");
  }
  COVER("get");
}
