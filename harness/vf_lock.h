/* Ghost lock and environment of threads.
 * STUB: lf_mutex_lock/unlock/init, lf_cond_*: ghost hold counter per lock; waiting releases the lock and lets the
 *       environment act (vf_wait_effect) before it is taken again
 * STUB: lf_thread_create/join, lf_sleep, initialize_lf_thread_id: no effect (recorded) */
#ifndef VF_LOCK_H
#define VF_LOCK_H
#ifndef VF_LOCKS
#define VF_LOCKS 2
#endif
static void* vf_lk[VF_LOCKS];
static int vf_held[VF_LOCKS];
static int vf_lock_total; /* sum of holds */
#ifdef VF_P26
#define CHECK26(c, n) CHECK(c, n)
#else
#define CHECK26(c, n) ((void)0)
#endif
static int vf_lock_index(void* m) {
  for (int i = 0; i < VF_LOCKS; i++) {
    if (vf_lk[i] == m) return i;
    if (vf_lk[i] == NULL) {
      vf_lk[i] = m;
      return i;
    }
  }
  ASSUME(0);
  return 0;
}
static int vf_holds(void* m) { return vf_held[vf_lock_index(m)]; }
static void vf_on_lock(void* m);
static void vf_wait_effect(lf_cond_t* c);
int lf_mutex_init(lf_mutex_t* m) { return 0; }
int lf_mutex_lock(lf_mutex_t* m) {
  int i = vf_lock_index(m);
  vf_held[i]++;
  vf_lock_total++;
  if (vf_held[i] == 1) vf_on_lock(m);
  return 0;
}
int lf_mutex_unlock(lf_mutex_t* m) {
  int i = vf_lock_index(m);
  CHECK26(vf_held[i] > 0, "a lock is released only while it is held");
  vf_held[i]--;
  vf_lock_total--;
  return 0;
}
int lf_cond_init(lf_cond_t* c, lf_mutex_t* m) { return 0; }
static int vf_n_broadcast, vf_n_signal;
int lf_cond_broadcast(lf_cond_t* c) {
  vf_n_broadcast++;
  return 0;
}
#ifndef VF_SIGS
#define VF_SIGS 4
#endif
static lf_cond_t* vf_sig[VF_SIGS];
static bool vf_signaled(lf_cond_t* c) {
  for (int i = 0; i < VF_SIGS; i++)
    if (vf_sig[i] == c) return true;
  return false;
}
int lf_cond_signal(lf_cond_t* c) {
  if (vf_n_signal < VF_SIGS) vf_sig[vf_n_signal] = c;
  vf_n_signal++;
  return 0;
}
int lf_cond_wait(lf_cond_t* c) {
  CHECK26(vf_lock_total == 1, "waiting happens with the lock held exactly once");
  vf_wait_effect(c);
  return 0;
}
static int vf_threads_created;
int lf_thread_create(lf_thread_t* t, void* (*f)(void*), void* a) {
  vf_threads_created++;
  return 0;
}
int lf_thread_join(lf_thread_t t, void** r) { return 0; }
int lf_sleep(interval_t d) { return 0; }
void initialize_lf_thread_id() {}
#endif
