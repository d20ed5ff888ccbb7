/* P04: minimum delays over all upstream paths.  Real code: core/federated/RTI/rti_common.c
 * update_min_delays_upstream, _update_min_delays_upstream, invalidate_min_delays_upstream, is_in_cycle,
 * is_in_zero_delay_cycle, over every graph of NN nodes with at most MU incoming connections each. */
#include "vf.h"
#include "vf_env_min.h"
#include "rti_common.h"
#include "tag_spec.h"
#include "rti_pool.h"
#include "core/tag.c"
#include "core/federated/RTI/rti_common.c"
#ifndef MU
#define MU NN
#endif
/* STUB: notify_tag_advance_grant, notify_provisional_tag_advance_grant: not reached from the functions under contract */
void notify_tag_advance_grant(scheduling_node_t* e, tag_t tag) { CHECK(0, "computing delays grants nothing"); }
void notify_provisional_tag_advance_grant(scheduling_node_t* e, tag_t tag) { CHECK(0, "computing delays grants nothing"); }

static const int ups[NN][MU] = UPS;
static tag_t dist[NN];
static bool reach[NN], zreach[NN];
/* shortest distances to node e (0 = e itself before any connection), over paths through connected nodes; one round per
 * path length.  dist[e] is the shortest cycle through e. */
static tag_t conn(interval_t d) { return spec_delay(spec_tag(0, 0), d); }
static void oracle(int e) {
  tag_t cur[NN], nxt[NN];
  bool z[NN], zn[NN], r[NN], rn[NN];
  for (int j = 0; j < NN; j++) {
    dist[j] = cur[j] = FOREVER_TAG;
    reach[j] = zreach[j] = z[j] = r[j] = false;
  }
  for (int len = 1; len <= NN; len++) {
    for (int j = 0; j < NN; j++) {
      nxt[j] = FOREVER_TAG;
      zn[j] = rn[j] = false;
    }
    for (int m = 0; m < NN; m++) {
      /* paths of length len - 1 from m to e, extended by a connection into m */
      if (b_state[m] == NOT_CONNECTED) continue;
      if (len == 1 ? m != e : m == e) continue; /* a path through e again is not shorter */
      tag_t so_far = len == 1 ? spec_tag(0, 0) : cur[m];
      bool zz = len == 1 || z[m], rr = len == 1 || r[m];
      for (int k = 0; k < MU; k++) {
        if (k >= b_nup[m]) continue;
        tag_t p = spec_tag_add(conn(b_upd[m][k]), so_far);
        for (int j = 0; j < NN; j++)
          if (b_up[m][k] == j && rr) {
            if (spec_cmp(p, nxt[j]) < 0) nxt[j] = p;
            rn[j] = true;
            if (zz && b_upd[m][k] < 0) zn[j] = true;
          }
      }
    }
    for (int j = 0; j < NN; j++) {
      if (spec_cmp(nxt[j], dist[j]) < 0) dist[j] = nxt[j];
      cur[j] = nxt[j];
      z[j] = zn[j];
      r[j] = rn[j];
      if (z[j]) zreach[j] = true;
      if (r[j]) reach[j] = true;
    }
  }
}
static void check(int e) {
  size_t n = 0;
  for (int j = 0; j < NN; j++)
    if (spec_cmp(dist[j], FOREVER_TAG) < 0) n++;
  CHECK(nodes[e]->num_min_delays == n, "every upstream node with a path has one entry, and no other node");
  size_t k = 0;
  for (int j = 0; j < NN; j++)
    if (spec_cmp(dist[j], FOREVER_TAG) < 0) {
      if (k < nodes[e]->num_min_delays) {
        CHECK(nodes[e]->min_delays[k].id == j, "entries name the upstream nodes");
        CHECK(spec_eq(nodes[e]->min_delays[k].min_delay, dist[j]), "the minimum delay is the least accumulated delay over all paths");
      }
      k++;
    }
  /* a cycle whose delay is infinite carries no message */
  CHECK(((nodes[e]->flags & IS_IN_CYCLE) != 0) == (spec_cmp(dist[e], FOREVER_TAG) < 0), "flagged as in a cycle exactly if it can reach itself");
  CHECK(((nodes[e]->flags & IS_IN_ZERO_DELAY_CYCLE) != 0) == zreach[e], "flagged as in a zero-delay cycle exactly if it can reach itself without delay");
}
static void setup(void) {
  for (int i = 0; i < NN; i++) {
    pool_node(i);
    ASSUME(b_nup[i] <= MU);
#ifdef FIXED_LENGTHS
    nodes[i]->num_upstream = b_nup[i] = MU;
#endif
    /* the lists hold fixed identifiers; a shorter list or an infinite delay takes a connection out */
    for (int k = 0; k < MU; k++) nodes[i]->upstream[k] = (uint16_t)(b_up[i][k] = ups[i][k]);
#ifdef DMAX
    for (int k = 0; k < NN; k++) ASSUME(b_upd[i][k] <= DMAX);
#endif
  }
  rti_common = &common;
  common.mutex = &the_mutex;
  common.number_of_scheduling_nodes = NN;
  common.scheduling_nodes = nodes;
}
void h_delays(void) {
  setup();
  oracle(0);
  update_min_delays_upstream(nodes[0]);
  check(0);
  CHECK(frame_ok(), "computing delays changes no reported progress");
  for (int i = 1; i < NN; i++) CHECK(nodes[i]->min_delays == NULL && nodes[i]->flags == 0, "only the node's own record is computed");
  COVER("delays");
}
/* cached results are reused, invalidation forgets them */
void h_cache(void) {
  setup();
  int f = (int)nd_range(0, 3);
  nodes[0]->min_delays = (minimum_delay_t*)vf_alloc(sizeof(minimum_delay_t));
  nodes[0]->num_min_delays = 1;
  nodes[0]->flags = f;
  minimum_delay_t* m = nodes[0]->min_delays;
  bool zc = is_in_zero_delay_cycle(nodes[0]), ic = is_in_cycle(nodes[0]);
  CHECK(nodes[0]->min_delays == m && nodes[0]->num_min_delays == 1 && nodes[0]->flags == f, "a valid result is reused");
  CHECK(zc == ((f & IS_IN_ZERO_DELAY_CYCLE) != 0) && ic == ((f & IS_IN_CYCLE) != 0), "the flags are reported as recorded");
  invalidate_min_delays_upstream(nodes[0]);
  CHECK(nodes[0]->min_delays == NULL && nodes[0]->num_min_delays == 0 && nodes[0]->flags == 0, "invalidation forgets the result");
  oracle(0);
  bool zc2 = is_in_zero_delay_cycle(nodes[0]);
  CHECK(zc2 == zreach[0], "after invalidation the result is computed anew");
  COVER("cache");
}
