/* P18: vectors.  Real code: core/utils/vector.c; w is an arbitrary position (the property for all positions) */
#include "vf.h"
#include "vf_env_min.h"
#include "core/utils/vector.c"
static vector_t V;
static size_t cap, n, w;
static void* old; /* element at w before */
#if defined(VF_SEARCH) || defined(CAPC)
#define LIM 3
#else
#define LIM (((size_t)1) << 36)
#endif
static void begin(void) {
  VF_ALLOC_OK();
#ifdef CAPC
  cap = CAPC;
#else
  cap = nd_u64();
#endif
  n = nd_u64();
  w = nd_u64();
  ASSUME(cap >= 1 && cap <= LIM && n <= cap && w <= 4 * LIM);
  V.start = (void**)malloc(cap * sizeof(void*));
  ASSUME(V.start != NULL);
  V.next = V.start + n;
  V.end = V.start + cap;
  V.votes = (int)nd_range(0, 1000000);
  V.votes_required = (int)nd_range(1, 1000000);
#if defined(VF_SEARCH) || defined(CAPC)
  for (size_t i = 0; i < cap && i < LIM; i++) V.start[i] = (void*)nd_u64();
#endif
  old = w < n ? V.start[w] : NULL;
}
static void still(size_t m) {
  CHECK(vector_size(&V) == m, "the number of elements is right");
  CHECK(V.start <= V.next && V.next <= V.end, "the elements lie within the capacity");
  CHECK(IMPLIES(w < n && w < m, V.start[w] == old), "elements keep their value and position");
}
void h_new(void) {
  size_t c = nd_u64();
  ASSUME(c >= 1 && c <= LIM);
  V = vector_new(c);
  CHECK(vector_size(&V) == 0 && V.end == V.start + c, "a new vector is empty");
  vector_free(&V);
  COVER("new");
}
void h_push(void) {
  begin();
  void* e = (void*)nd_u64();
  vector_push(&V, e);
  still(n + 1);
  CHECK(V.start[n] == e, "the pushed element is last");
  COVER("push");
}
void h_pop(void) {
  begin();
  void* last = n > 0 ? V.start[n - 1] : NULL;
  void* r = vector_pop(&V);
  CHECK(r == last, "pop returns the element pushed last, or nothing");
  still(n > 0 ? n - 1 : 0);
  CHECK(V.end > V.start, "the capacity stays positive");
  COVER("pop");
}
void h_vote(void) {
  begin();
  vector_vote(&V);
  still(n);
  CHECK(V.votes >= 0, "votes are counted");
  COVER("vote");
}
static size_t g_j;
static void* g_aj;
void h_at(void) {
  begin();
  size_t idx = nd_u64();
  ASSUME(idx <= 2 * LIM);
  void** r = vector_at(&V, idx);
  CHECK(r == V.start + idx, "indexed access returns the position asked for");
  still(idx + 1 > n ? idx + 1 : n);
  CHECK(IMPLIES(w >= n && w <= idx, V.start[w] == NULL), "elements that were never set are NULL");
  COVER("at");
}
void h_pushall(void) {
  begin();
  size_t m = nd_u64(), j = nd_u64();
  g_j = j;
  ASSUME(m >= 1 && m <= LIM && j < m);
  void** a = (void**)malloc(m * sizeof(void*));
#if defined(VF_SEARCH) || defined(CAPC)
  for (size_t i = 0; i < m && i < LIM; i++) {
    a[i] = (void*)nd_u64();
    ASSUME(a[i] != NULL);
  }
#endif
  void* aj = a[j];
  g_aj = aj;
  vector_pushall(&V, a, m);
  still(n + m);
  CHECK(V.start[n + j] == aj, "the pushed elements follow in order");
  COVER("pushall");
}
