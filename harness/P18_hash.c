/* P18: hash set and hash map: representation invariant plus set/map semantics of every operation.
 * Real code: core/utils/hashset/*.c, include/core/utils/impl/hashmap.h. x is an arbitrary item. */
#include "vf.h"
#include "vf_env_min.h"
#ifndef NB
#define NB 2
#endif
#define CAP (1 << NB)
#define CAP2 (2 << NB)
#include "core/utils/hashset/hashset.c"
#include "core/utils/hashset/hashset_itr.c"
static struct hashset_st S;
static void* x;
#define REAL(p) ((p) != NULL && (p) != (void*)1)
/* items: only the low bits decide where an item goes, so that DOM distinct values realise every arrangement */
#ifndef DOM
#define DOM (16 << NB)
#endif
static void* nd_item(void) { return (void*)nd_range(0, DOM - 1); }
static bool has(void* y) {
  for (size_t i = 0; i < CAP2; i++)
    if (i < S.capacity && S.items[i] == y) return true;
  return false;
}
/* every item can be reached from its home position over non-empty slots, and occurs once; the counts are right */
static bool inv(void) {
  if (S.capacity != (size_t)1 << S.nbits || S.mask != S.capacity - 1) return false;
  size_t real = 0, del = 0;
  for (size_t i = 0; i < CAP2; i++) {
    if (i >= S.capacity) continue;
    void* y = S.items[i];
    if (y == (void*)1) del++;
    if (!REAL(y)) continue;
    real++;
    size_t p = (73 * (size_t)y) & S.mask;
    bool met = false;
    for (size_t k = 0; k < CAP2; k++) {
      if (k >= S.capacity || met) continue;
      if (S.items[p] == NULL) return false;
      if (p == i) met = true;
      else if (S.items[p] == y) return false;
      p = (p + 5009) & S.mask;
    }
    for (size_t k = i + 1; k < CAP2; k++)
      if (k < S.capacity && S.items[k] == y) return false;
  }
  return S.nitems == real && S.n_deleted_items == del && real + del < S.capacity;
}
static void begin(void) {
  S.nbits = NB;
  S.capacity = CAP;
  S.mask = CAP - 1;
  S.items = (void**)malloc(CAP * sizeof(void*));
  for (int i = 0; i < CAP; i++) S.items[i] = nd_item();
  S.nitems = (size_t)nd_range(0, CAP);
  S.n_deleted_items = (size_t)nd_range(0, CAP);
  ASSUME(inv());
  x = nd_item();
  ASSUME(REAL(x));
}
void h_add(void) {
  begin();
  void* y = nd_item();
  bool hx = has(x), hy = REAL(y) && has(y);
  size_t b = S.nitems;
  ASSUME(S.nitems + S.n_deleted_items < (float)S.capacity * 0.85f || CAP == 1);
  int r = hashset_add(&S, y);
  CHECK(r == (!REAL(y) ? -1 : hy ? 0 : 1), "an item is added once; duplicates and the reserved values are refused");
  CHECK(inv(), "the set stays well-formed");
  CHECK(has(x) == (hx || x == y), "adding changes the membership of the item only");
  CHECK(hashset_num_items(&S) == b + (r == 1), "the item count is right");
  CHECK((float)S.capacity * 0.85f > S.nitems + S.n_deleted_items, "there is room for the next item");
  COVER("add");
}
void h_remove(void) {
  begin();
  void* y = nd_item();
  ASSUME(REAL(y));
  bool hx = has(x), hy = has(y);
  size_t b = S.nitems;
  int r = hashset_remove(&S, y);
  CHECK((r != 0) == hy, "removal reports whether the item was there");
  CHECK(inv(), "the set stays well-formed");
  CHECK(has(x) == (hx && x != y), "removing changes the membership of the item only");
  CHECK(hashset_num_items(&S) == b - (hy ? 1 : 0), "the item count is right");
  COVER("remove");
}
void h_member(void) {
  begin();
  CHECK((hashset_is_member(&S, x) != 0) == has(x), "an item is a member exactly if it was added and not removed");
  COVER("member");
}
void h_iterate(void) {
  begin();
  struct hashset_itr_st it;
  it.set = &S;
  it.index = (int)nd_range(-1, CAP - 1);
  int next = -1;
  for (int i = CAP - 1; i >= 0; i--)
    if (i > it.index && REAL(S.items[i])) next = i;
  CHECK((hashset_iterator_has_next(&it) != 0) == (next >= 0), "iteration announces a next member exactly if there is one");
  int r = hashset_iterator_next(&it);
  CHECK((r >= 0) == (next >= 0), "iteration ends after the last member");
  if (r >= 0) CHECK(r == next && it.index == next && hashset_iterator_value(&it) == S.items[next], "iteration visits the members one after the other");
  hashset_itr_t f = hashset_iterator(&S);
  CHECK(f != NULL && f->index == -1 && f->set == &S, "an iteration starts before the first member");
  COVER("iterate");
}
void h_create(void) {
  hashset_t s = hashset_create(NB);
  ASSUME(s != NULL);
  S = *s;
  CHECK(inv() && hashset_num_items(s) == 0, "a new set is empty");
  hashset_destroy(s);
  COVER("create");
}
/* ---- map */
#include "core/utils/impl/pointer_hashmap.h"
typedef hashmap_object2int_entry_t entry;
static hashmap_object2int_t M;
static size_t mcap;
static int pos(void* k) {
  for (int i = 0; i < CAP; i++)
    if ((size_t)i < mcap && M.entries[i].key == k) return i;
  return -1;
}
static bool minv(void) {
  if (M.entries[mcap].key != M.nothing || M.capacity != mcap) return false;
  for (size_t i = 0; i < CAP; i++) {
    if (i >= mcap || M.entries[i].key == M.nothing) continue;
    size_t p = (size_t)M.entries[i].key % mcap;
    bool met = false;
    for (int k = 0; k < CAP; k++) {
      if (met) continue;
      if (M.entries[p].key == M.nothing) return false;
      if (p == i) met = true;
      else if (M.entries[p].key == M.entries[i].key) return false;
      p = p + 1 == mcap ? 0 : p + 1;
    }
    for (size_t k = i + 1; k < CAP; k++)
      if (k < mcap && M.entries[k].key == M.entries[i].key) return false;
  }
  return true;
}
static void mbegin(void) {
  mcap = MCAP;
  M.nothing = nd_item();
  M.capacity = mcap;
  M.num_entries = 0;
  M.entries = (entry*)malloc((MCAP + 1) * sizeof(entry));
  for (int i = 0; i <= MCAP; i++) {
    M.entries[i].key = nd_item();
    M.entries[i].value = nd_i32();
  }
  ASSUME(minv());
  x = nd_item();
  ASSUME(x != M.nothing);
}
void h_put(void) {
  mbegin();
  void* k = nd_item();
  int v = nd_i32();
  ASSUME(k != M.nothing);
  int at = pos(x), room = pos(M.nothing), had = pos(k);
  int before = at >= 0 ? M.entries[at].value : 0;
  ASSUME(had >= 0 || room >= 0); /* capacity is larger than the number of keys */
  hashmap_object2int_put(&M, k, v);
  CHECK(minv(), "the map stays well-formed");
  CHECK(hashmap_object2int_get(&M, k) == v, "a key maps to the value put last");
  if (x != k) {
    CHECK((pos(x) >= 0) == (at >= 0), "putting a key adds or removes no other key");
    if (at >= 0) CHECK(hashmap_object2int_get(&M, x) == before, "other keys keep their values");
  }
  COVER("put");
}
void h_mapnew(void) {
  void* nothing = nd_item();
  hashmap_object2int_t* m = hashmap_object2int_new(MCAP, nothing);
  M = *m;
  mcap = MCAP;
  CHECK(minv() && m->nothing == nothing, "a new map is well-formed");
  for (int i = 0; i < MCAP; i++) CHECK(m->entries[i].key == nothing, "a new map is empty");
  hashmap_object2int_free(m);
  COVER("new");
}
