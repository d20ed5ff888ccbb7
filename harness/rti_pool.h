/* A coordinator state of at most NN scheduling nodes with arbitrary contents, and the grant rule over it. */
#ifndef RTI_POOL_H
#define RTI_POOL_H
#ifndef NN
#define NN 3
#endif
static tag_t nd_tag(void) {
  tag_t t;
  t.time = nd_i64();
  t.microstep = nd_u32();
#ifdef VF_SMALL
  ASSUME(t.time == NEVER || t.time == FOREVER || (t.time >= 0 && t.time < 32));
  ASSUME(t.microstep == UINT_MAX || t.microstep < 4);
#endif
  return t;
}
/* tags a federation can report: NEVER, FOREVER or a time that is neither infinity */
static tag_t nd_prog_tag(void) {
  tag_t t = nd_tag();
  ASSUME(t.time != FOREVER || t.microstep == UINT_MAX);
  ASSUME(t.time != NEVER || t.microstep == 0);
  ASSUME(t.microstep != UINT_MAX || t.time == FOREVER);
  return t;
}
static interval_t nd_delay(void) {
  interval_t d = nd_i64();
  ASSUME(d >= 0 || d == NEVER);
#ifdef VF_SMALL
  ASSUME(d == NEVER || d == FOREVER || d < 32);
#endif
  return d;
}
#ifndef POOL_TYPE
#define POOL_TYPE scheduling_node_t
#endif
static scheduling_node_t* nodes[NN];
static rti_common_t common;
static lf_mutex_t the_mutex;
instant_t start_time;
/* the state before the call, flattened */
static tag_t b_next[NN], b_comp[NN], b_tag[NN], b_ptag[NN];
static int b_state[NN], b_nup[NN], b_ndn[NN], b_up[NN][NN], b_dn[NN][NN], b_flags[NN], b_mid[NN][NN];
static size_t b_nmd[NN];
static interval_t b_upd[NN][NN];
static tag_t b_md[NN][NN];
#define SEL(arr, i) (NN > 2 && (i) == 2 ? arr[NN > 2 ? 2 : 0] : NN > 3 && (i) == 3 ? arr[NN > 3 ? 3 : 0] : (i) == 1 ? arr[NN > 1 ? 1 : 0] : arr[0])

static void pool_node(int i) {
  scheduling_node_t* n = (scheduling_node_t*)vf_alloc(sizeof(POOL_TYPE));
  nodes[i] = n;
  n->id = (uint16_t)i;
  n->completed = b_comp[i] = nd_prog_tag();
  n->last_granted = b_tag[i] = nd_prog_tag();
  n->last_provisionally_granted = b_ptag[i] = nd_prog_tag();
  n->next_event = b_next[i] = nd_prog_tag();
  b_state[i] = (int)nd_range(NOT_CONNECTED, PENDING);
  n->state = (scheduling_node_state_t)b_state[i];
  n->num_upstream = b_nup[i] = (int)nd_range(0, NN);
  n->num_downstream = b_ndn[i] = (int)nd_range(0, NN);
  n->upstream = (uint16_t*)vf_alloc(NN * sizeof(uint16_t));
  n->upstream_delay = (interval_t*)vf_alloc(NN * sizeof(interval_t));
  n->downstream = (uint16_t*)vf_alloc(NN * sizeof(uint16_t));
  n->mode = REALTIME;
  n->min_delays = NULL;
  n->num_min_delays = 0;
  n->flags = 0;
  for (int k = 0; k < NN; k++) {
    n->upstream[k] = (uint16_t)(b_up[i][k] = (int)nd_range(0, NN - 1));
    n->downstream[k] = (uint16_t)(b_dn[i][k] = (int)nd_range(0, NN - 1));
    n->upstream_delay[k] = b_upd[i][k] = nd_delay();
  }
}
/* cached minimum delays: arbitrary */
static void pool_delays(int i) {
  scheduling_node_t* n = nodes[i];
  n->min_delays = (minimum_delay_t*)vf_alloc(NN * sizeof(minimum_delay_t));
  n->num_min_delays = b_nmd[i] = (size_t)nd_range(0, NN);
  n->flags = b_flags[i] = (int)nd_range(0, 3);
  for (int k = 0; k < NN; k++) {
    n->min_delays[k].id = b_mid[i][k] = (int)nd_range(0, NN - 1);
    tag_t t = nd_tag();
    ASSUME(t.time >= 0);
    n->min_delays[k].min_delay = b_md[i][k] = t;
  }
}
/* --- the rule, from its documentation --- */
static inline tag_t tmin(tag_t a, tag_t b) { return spec_cmp(a, b) < 0 ? a : b; }
static tag_t s_next[NN], s_eimt[NN], s_strict[NN], s_minc[NN];
static bool s_zdc[NN];
static tag_advance_grant_t s_grant[NN], s_grant_start[NN];
/* grants that do not move forward are dropped by the notification */
static inline tag_advance_grant_t spec_effective(int e, tag_advance_grant_t g) {
  tag_advance_grant_t none = {.tag = NEVER_TAG, .is_provisional = false};
  if (spec_cmp(g.tag, b_tag[e]) <= 0) return none;
  int c = spec_cmp(g.tag, b_ptag[e]);
  if (g.is_provisional ? c <= 0 : c < 0) return none;
  return g;
}
static inline bool same_grant(tag_advance_grant_t a, tag_advance_grant_t b) {
  return spec_eq(a.tag, b.tag) && (a.is_provisional == b.is_provisional || spec_eq(a.tag, NEVER_TAG));
}
static inline tag_advance_grant_t spec_decide(int e, tag_t m, tag_t d, tag_t strict, tag_t ne) {
  tag_advance_grant_t g = {.tag = NEVER_TAG, .is_provisional = false};
  tag_t lg = b_tag[e], lp = b_ptag[e];
  if (spec_cmp(m, lg) > 0 && spec_cmp(m, ne) >= 0) {
    g.tag = m;
  } else if (spec_cmp(d, ne) > 0 && spec_cmp(ne, NEVER_TAG) > 0 && spec_cmp(d, lp) >= 0 && spec_cmp(d, lg) > 0) {
    g.tag = ne;
  } else if (spec_eq(d, ne) && s_zdc[e] && spec_cmp(strict, ne) > 0 && spec_cmp(d, lp) > 0 && spec_cmp(d, lg) > 0) {
    g.tag = ne;
    g.is_provisional = true;
  }
  return spec_effective(e, g);
}
static inline bool grant_ok(int e, tag_advance_grant_t g) {
  g = spec_effective(e, g);
  return same_grant(g, SEL(s_grant, e)) || same_grant(g, SEL(s_grant_start, e));
}
/* in modular proofs the callee's specification value is an arbitrary tag */
static bool eimt_known_by_contract, strict_known_by_contract;
static void spec_rule(int only) {
  for (int e = 0; e < NN; e++) {
    tag_t s = {.time = start_time, .microstep = 0};
    s_next[e] = spec_eq(b_next[e], NEVER_TAG) ? s : b_next[e];
    s_zdc[e] = (b_flags[e] & 1) != 0;
  }
  /* earliest tag at which anything upstream can still act, seen at e */
  for (int e = 0; e < NN; e++) {
    tag_t t = FOREVER_TAG;
#ifdef VF_ABSTRACT
    if (eimt_known_by_contract) {
      s_eimt[e] = nd_tag();
      continue;
    }
#endif
    for (int k = 0; k < NN; k++)
      if ((size_t)k < b_nmd[e]) t = tmin(t, u_tag_add(SEL(s_next, b_mid[e][k]), b_md[e][k]));
    s_eimt[e] = t;
  }
  for (int e = 0; e < NN; e++) {
    if (only >= 0 && e != only) continue;
    /* the same, ignoring immediate upstream nodes inside a zero-delay cycle */
    tag_t t = FOREVER_TAG, m = FOREVER_TAG;
    for (int k = 0; k < NN; k++) {
      int u = b_up[e][k];
      if (k >= b_nup[e]) continue;
      if (!SEL(s_zdc, u)) t = tmin(t, u_delay(tmin(SEL(s_next, u), SEL(s_eimt, u)), b_upd[e][k]));
      if (SEL(b_state, u) != NOT_CONNECTED) m = tmin(m, u_delay_strict(SEL(b_comp, u), b_upd[e][k]));
    }
#ifdef VF_ABSTRACT
    if (strict_known_by_contract) t = nd_tag();
#endif
    s_strict[e] = t;
    s_minc[e] = m;
    s_grant[e] = spec_decide(e, m, s_eimt[e], t, b_next[e]);
    /* a node that has not reported yet may be taken to be pending at the start tag */
    s_grant_start[e] = spec_decide(e, m, s_eimt[e], t, s_next[e]);
  }
}
/* frame: only the recorded next event of a node that never reported may change, to the start tag */
static inline bool node_same(int i) {
  scheduling_node_t* n = nodes[i];
  return n->id == i && spec_eq(n->completed, b_comp[i]) && spec_eq(n->last_granted, b_tag[i]) &&
         spec_eq(n->last_provisionally_granted, b_ptag[i]) && n->state == b_state[i] && n->num_upstream == b_nup[i] &&
         n->num_downstream == b_ndn[i];
}
static inline bool next_same(int i) {
  tag_t s = {.time = start_time, .microstep = 0}, v = nodes[i]->next_event;
  return spec_eq(v, b_next[i]) || (spec_eq(b_next[i], NEVER_TAG) && spec_eq(v, s));
}
static inline bool frame_ok(void) {
  for (int i = 0; i < NN; i++)
    if (!node_same(i) || !next_same(i)) return false;
  return true;
}
#endif
