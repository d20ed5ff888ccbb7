/* P13: the priority queue.  Real code: core/utils/pqueue_base.c, pqueue.c, pqueue_tag.c.
 * Representation invariant + the effect of every operation, from an arbitrary valid queue of N elements (element i sits
 * at position i, which is no restriction: elements are interchangeable). */
#include "vf.h"
#include "vf_env_min.h"
#include "low_level_platform.h"
#include "lf_types.h"
#include "tag_spec.h"
instant_t start_time;
int lf_clock_gettime(instant_t* t) { return 0; }
#include "core/tag.c"
#include "core/utils/pqueue_base.c"
#include "core/utils/pqueue_tag.c"
#include "core/utils/pqueue.c"
#ifndef N
#define N 6
#endif
#ifndef TAGQ
typedef reaction_t elem;
static uint64_t pri(elem* e) { return e->index; }
static bool le_pri(elem* a, elem* b) { return a->index <= b->index; }
static bool same_pri(elem* a, elem* b) { return a->index == b->index; }
static void set_pri(elem* e) { e->index = nd_u64(); }
#define EQ(a, b) ((a) == (b))
#else
typedef pqueue_tag_element_t elem;
static bool le_pri(elem* a, elem* b) { return spec_cmp(a->tag, b->tag) <= 0; }
static bool same_pri(elem* a, elem* b) { return spec_cmp(a->tag, b->tag) == 0; }
static void set_pri(elem* e) {
  e->tag.time = nd_i64();
  e->tag.microstep = nd_u32();
  e->is_dynamic = 0;
}
#define EQ(a, b) same_pri(a, b)
#endif
static elem el[N + 2]; /* el[1..N] may be queued, el[N+1] is the new one */
static pqueue_t* q;
static size_t n;
static bool is_queued(elem* e) {
  for (size_t i = 1; i <= N + 1; i++)
    if (i < q->size && q->d[i] == (void*)e) return true;
  return false;
}
/* positions, order and no duplicates */
static bool valid(void) {
  if (q->size < 1 || q->size > q->avail) return false;
  for (size_t i = 1; i <= N + 1; i++) {
    if (i >= q->size) continue;
    elem* e = (elem*)q->d[i];
    if (e == NULL || e->pos != i) return false;
    if (i > 1 && !le_pri((elem*)q->d[i / 2], e)) return false;
  }
  return true;
}
static void begin(void) {
#ifdef TAGQ
  q = pqueue_tag_init(NIN);
#else
  q = pqueue_init(NIN, in_reverse_order, get_reaction_index, get_reaction_position, set_reaction_position, reaction_matches, print_reaction);
#endif
  CHECK(pqueue_size(q) == 0 && pqueue_peek(q) == NULL && pqueue_pop(q) == NULL, "a new queue is empty");
  n = NIN;
  for (size_t i = 1; i <= N + 1; i++) {
    set_pri(&el[i]);
    el[i].pos = i;
    if (i <= n) q->d[i] = &el[i];
  }
  q->size = n + 1;
  q->avail = q->step = n + 1;
#ifdef VF_SPACE
  q->d = (void**)realloc(q->d, (n + 3) * sizeof(void*));
  q->avail = n + 3;
#endif
  ASSUME(valid());
}
static void only_changed(elem* e, bool now) {
  CHECK(valid(), "the queue stays ordered and every element knows its position");
  for (size_t i = 1; i <= N + 1; i++) {
    bool was = i <= n;
    CHECK(is_queued(&el[i]) == (&el[i] == e ? now : was), "exactly the intended element enters or leaves the queue");
  }
  CHECK(pqueue_size(q) == n + (e == NULL ? 0 : now ? 1 : -1), "the size is the number of elements");
  CHECK(pqueue_is_valid(q), "the queue's own consistency check agrees");
}
static void is_minimal(elem* e) {
  for (size_t i = 1; i <= N; i++)
    if (i <= n) CHECK(e != NULL && le_pri(e, &el[i]), "the head is not after any other element");
}
void h_insert(void) {
  begin();
  CHECK(pqueue_insert(q, &el[N + 1]) == 0, "insertion succeeds");
  only_changed(&el[N + 1], true);
  COVER("insert");
}
void h_pop(void) {
  begin();
  elem* p = (elem*)pqueue_peek(q);
  CHECK((p != NULL) == (n > 0), "peek finds something exactly if the queue is not empty");
  is_minimal(p);
  only_changed(NULL, true);
  elem* e = (elem*)pqueue_pop(q);
  CHECK(e == p, "pop returns the head");
  only_changed(e, false);
  COVER("pop");
}
void h_remove(void) {
  begin();
  size_t k = (size_t)nd_range(1, N);
  ASSUME(k <= n);
  for (size_t i = 1; i <= N; i++)
    if (i == k) {
      CHECK(pqueue_remove(q, &el[i]) == 0, "removal succeeds");
      only_changed(&el[i], false);
      COVER("remove");
      return;
    }
}
void h_find(void) {
  begin();
  elem* r = (elem*)pqueue_find_same_priority(q, &el[N + 1]);
  bool any = false;
  for (size_t i = 1; i <= N; i++) any = any || (i <= n && same_pri(&el[i], &el[N + 1]));
  CHECK((r != NULL) == any, "an element of the same priority is found exactly if there is one");
  if (r != NULL) CHECK(is_queued(r) && same_pri(r, &el[N + 1]), "the element found is queued and has that priority");
  size_t k = (size_t)nd_range(1, N + 1);
  for (size_t i = 1; i <= N + 1; i++)
    if (i == k) {
      r = (elem*)pqueue_find_equal_same_priority(q, &el[i]);
      bool eq = false;
      for (size_t j = 1; j <= N; j++) eq = eq || (j <= n && same_pri(&el[j], &el[i]) && EQ(&el[j], &el[i]));
      CHECK((r != NULL) == eq, "an equal element is found exactly if there is one");
      if (r != NULL) CHECK(is_queued(r) && EQ(r, &el[i]), "the element found is the one looked for");
    }
  only_changed(NULL, true);
  COVER("find");
}
/* merging: el[1..n] in q, the rest in a second queue */
void h_merge(void) {
  begin();
  pqueue_t* s = pqueue_init(1, q->cmppri, q->getpri, q->getpos, q->setpos, q->eqelem, q->prt);
  for (size_t i = 1; i <= N + 1; i++)
    if (i > n) pqueue_insert(s, &el[i]);
  pqueue_t *d = q, *src = s;
#ifdef SWAP
  d = s;
  src = q;
#endif
  pqueue_empty_into(&d, &src);
  CHECK(pqueue_size(src) == 0, "the source is emptied");
  q = d;
  for (size_t i = 1; i <= N + 1; i++) CHECK(is_queued(&el[i]), "the destination has everything");
  CHECK(valid() && pqueue_size(q) == N + 1, "the destination is a valid queue");
  COVER("merge");
}
#ifdef TAGQ
static tag_t any_tag(void) {
  tag_t t;
  t.time = nd_i64();
  t.microstep = nd_u32();
  return t;
}
static size_t count(tag_t t) {
  size_t c = 0;
  for (size_t i = 1; i <= N + 1; i++)
    if (i < q->size && spec_eq(((elem*)q->d[i])->tag, t)) c++;
  return c;
}
void h_tag_insert(void) {
  begin();
  tag_t t = any_tag(), w = any_tag();
  size_t cw = count(w), ct = count(t);
  int r = 0;
  bool cond = nd_bool();
  if (cond) r = pqueue_tag_insert_if_no_match(q, t);
  else r = pqueue_tag_insert_tag(q, t);
  CHECK(cond ? (r == 1) == (ct > 0) : r == 0, "a tag is refused exactly if only new tags are wanted and it is queued");
  CHECK(valid(), "the queue stays ordered and every element knows its position");
  CHECK(count(w) == cw + (r == 0 && spec_eq(w, t)), "exactly one element with the tag is added");
  CHECK((pqueue_tag_find_with_tag(q, t) != NULL), "the tag is found afterwards");
  COVER("tag insert");
}
void h_tag_upto(void) {
  begin();
  tag_t t = any_tag(), w = any_tag();
  ASSUME(spec_cmp(t, FOREVER_TAG) < 0);
  size_t cw = count(w);
  tag_t p = pqueue_tag_peek_tag(q);
  CHECK(n > 0 ? spec_eq(p, el[1].tag) : spec_eq(p, FOREVER_TAG), "the peeked tag is the head's, or FOREVER");
  pqueue_tag_remove_up_to(q, t);
  CHECK(valid(), "the queue stays ordered and every element knows its position");
  CHECK(count(w) == (spec_cmp(w, t) <= 0 ? 0 : cw), "exactly the elements up to the tag are removed");
  COVER("tag up to");
}
void h_tag_pop(void) {
  begin();
  tag_t w = any_tag();
  size_t cw = count(w);
  tag_t p = pqueue_tag_peek_tag(q), r = pqueue_tag_pop_tag(q);
  CHECK(spec_eq(p, r), "the popped tag is the peeked one");
  CHECK(count(w) == cw - (n > 0 && spec_eq(w, r)), "exactly one element is popped");
  CHECK(valid() && pqueue_tag_size(q) == (n > 0 ? n - 1 : 0), "the queue stays ordered and every element knows its position");
  COVER("tag pop");
}
#endif
