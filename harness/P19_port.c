/* P19: multiport iteration.  Real code: core/port.c, lf_set_present, _lf_start_time_step */
#include "vf.h"
#define RT_ATOMIC_EFFECT
#ifdef VF_ABSTRACT
/* STUB: qsort (in P19_iterator_sparse): sorts with the comparator given: a witness pair of neighbours is in order */
#endif
#include "rt_env.h"
#ifndef W
#define W 4
#endif
#ifndef LF_SINGLE_THREADED
static void vf_on_lock(void* m) {}
static void vf_wait_effect(lf_cond_t* c) {}
#endif
#ifndef VF_REPLAY
/* STUB: qsort: insertion sort with the given comparator */
void qsort(void* base, size_t n, size_t size, int (*cmp)(const void*, const void*)) {
  CHECK(size == sizeof(size_t), "channel records are sorted as such");
  size_t* a = (size_t*)base;
  for (size_t i = 1; i < n; i++)
    for (size_t j = i; j > 0; j--)
      if (compare_sizes(&a[j - 1], &a[j]) > 0) {
        size_t t = a[j];
        a[j] = a[j - 1];
        a[j - 1] = t;
      }
  CHECK(cmp == compare_sizes, "channels are sorted by number");
}
#endif
void h_compare(void) {
  size_t a = nd_u64(), b = nd_u64();
  int r = compare_sizes(&a, &b);
  CHECK(r == (a < b ? -1 : a > b ? 1 : 0), "channel numbers are compared as unsigned integers");
  COVER("compare");
}
static environment_t env;
static self_base_t self;
static lf_port_base_t port[W];
static lf_port_base_t* ports[W];
static lf_sparse_io_record_t rec;
static size_t recorded[W];
static bool* fields[W];
static bool* fields_abb[W];
static bool busy[W], want[W];
static int width, depth, others_left;
static int* sizes[2];
static void set_one(int c) {
  if (!busy[c]) {
    busy[c] = true;
    lf_set_present(&port[c]);
    want[c] = true;
    busy[c] = false;
  }
}
/* other workers write their own channels of the same multiport while one is between two steps of its write */
static void vf_atomic_effect(void) {
  if (depth < 1 && others_left > 0 && nd_bool()) {
    int c = (int)nd_range(0, W - 1);
    if (c < width) {
      depth++;
      others_left--;
      set_one(c);
      depth--;
    }
  }
}
static void check_iteration(void) {
  lf_multiport_iterator_t it = _lf_multiport_iterator_impl(ports, width);
  int expect = -1;
  for (int i = 0; i <= W; i++) {
    int c = lf_multiport_next(&it);
    int e = expect;
    expect = -1;
    for (int k = W - 1; k >= 0; k--)
      if (k > e && k < width && want[k]) expect = k;
    CHECK(c == expect, "the next channel is the lowest present one not visited yet, or none");
    if (expect < 0) break;
  }
  CHECK(lf_multiport_next(&it) == -1, "an exhausted iteration stays exhausted");
}
void h_history(void) {
  width = (int)nd_range(1, W);
  self.environment = &env;
  others_left = OTHERS;
  depth = 0;
  bool sparse = nd_bool();
  rec.size = 0;
  rec.capacity = (size_t)nd_range(0, W);
  rec.present_channels = recorded;
  ASSUME(rec.capacity <= (size_t)width);
  for (int i = 0; i < W; i++) {
    ports[i] = &port[i];
    port[i].is_present = false;
    port[i].sparse_record = sparse ? &rec : NULL;
    port[i].destination_channel = i;
    port[i].source_reactor = &self;
    want[i] = busy[i] = false;
    fields[i] = &port[i].is_present;
    recorded[i] = nd_u64();
  }
  env.is_present_fields = fields;
  env.is_present_fields_abbreviated = fields_abb;
  env.is_present_fields_size = width;
  env.is_present_fields_abbreviated_size = 0;
  env.execution_started = true;
  sizes[0] = &rec.size;
  env.sparse_io_record_sizes.start = (void**)sizes;
  env.sparse_io_record_sizes.next = (void**)sizes + 1;
  env.sparse_io_record_sizes.end = (void**)sizes + 2;
  _lf_token_templates = NULL;
  _lf_tokens_allocated_in_reactions = NULL;
  g_envs = NULL;
  for (int i = 0; i < WRITES; i++) {
    int c = (int)nd_range(-1, W - 1);
    if (c >= 0 && c < width) set_one(c);
  }
  check_iteration();
  if (nd_bool()) {
    /* the next tag starts with nothing present */
    _lf_start_time_step(&env);
    for (int i = 0; i < W; i++) {
      want[i] = false;
      CHECK(!port[i].is_present, "no channel is present when a tag begins");
    }
    others_left = 0;
    int c = (int)nd_range(-1, W - 1), d = (int)nd_range(-1, W - 1);
    if (c >= 0 && c < width) set_one(c);
    if (d >= 0 && d < width) set_one(d);
    check_iteration();
  }
  COVER("history");
}
