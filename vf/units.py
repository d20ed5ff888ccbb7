from .core import Unit
UNITS, ASSUMPTIONS = {}, {"*": ["gcc x86-64 LP64 data model; two's-complement; harness compiled with the build's own macros",
                                "harness TU includes the real .c file; nothing is extracted or rewritten"]}
def U(prop, *us): UNITS.setdefault(prop, []).extend(us)

for fn, h in [("lf_time_add", "h_time_add"), ("lf_tag_add", "h_tag_add"), ("lf_tag_compare", "h_compare"),
              ("lf_delay_tag", "h_delay"), ("lf_delay_strict", "h_delay_strict")]:
    U("P01", Unit("P01_" + fn, "P01_tag.c", h, enforce=fn))
    U("P01", Unit("P01_" + fn + "_single", "P01_tag.c", h, config="single", enforce=fn, tier="thorough"))

DELAYS = ["lf_tag_compare", "lf_delay_tag", "lf_delay_strict"]
U("P01", Unit("P01_lemma_order", "P01_tag.c", "l_order", replace=["lf_tag_compare"]),
  Unit("P01_lemma_strict", "P01_tag.c", "l_strict", replace=["lf_delay_strict", "lf_delay_tag"]),
  Unit("P01_lemma_monotone", "P01_tag.c", "l_monotone", replace=["lf_delay_tag"]))

# ---- RTI
B3 = "at most 3 scheduling nodes, each with at most 3 upstream, downstream and minimum-delay entries"
ARITH = ["lf_tag_add", "lf_delay_tag", "lf_delay_strict"]
UMD = ARITH + ["update_min_delays_upstream"]
def P02(name, h, fns, callees, n=3, **kw):
    U("P02", Unit(name, "P02_grant.c", h, config="rti", functions=fns, callees=callees, unwind=n + 1, kind="bounded", solver=["--sat-solver", "cadical"],
                  bound=B3.replace("3", str(n)), small=True, defs=[f"-DNN={n}"],
                  flags=[], search_flags=["--unwindset", "_update_min_delays_upstream:1"], **kw))
P02("P02_eimt", "h_eimt", ["earliest_future_incoming_message_tag"], UMD)
P02("P02_eimt_strict", "h_strict", ["eimt_strict", "is_in_zero_delay_cycle"], UMD + ["earliest_future_incoming_message_tag"])
P02("P02_tag_advance_grant_if_safe", "h_grant", ["tag_advance_grant_if_safe"], UMD + ["earliest_future_incoming_message_tag", "eimt_strict"])
P02("P02_notify", "h_notify", ["notify_advance_grant_if_safe"], UMD + ["tag_advance_grant_if_safe"])

P3F = ["notify_tag_advance_grant", "notify_provisional_tag_advance_grant"]
LE = ["le.0:9", "put_le.0:9", "encode_int64.0:9", "write.0:14", "read.0:25"]
def P03(name, h, fns, callees=(), n=2, unwind=None, kind="bounded", **kw):
    U("P03", Unit(name, "P03_notify.c", h, config="rti", functions=fns, callees=callees, unwind=unwind or n + 2, kind=kind, unwindset=LE,
                  bound="at most %d federates with at most %d connections each" % (n, n), small=True, defs=[f"-DNN={n}"], **kw))
P03("P03_notify_tag_advance_grant", "h_tag", P3F[:1], ARITH)
P03("P03_notify_provisional_tag_advance_grant", "h_ptag", P3F[1:], ARITH)
P03("P03_upstream_grants", "h_ptag_up", P3F, ARITH + ["earliest_future_incoming_message_tag", "eimt_strict", "notify_tag_advance_grant", "notify_provisional_tag_advance_grant"],
    search_flags=["--unwindset", "notify_provisional_tag_advance_grant:2,_update_min_delays_upstream:1"])
NDW = "notify_downstream_advance_grant_if_safe"
SRCH = ["--unwindset", NDW + ":3,_update_min_delays_upstream:1,notify_provisional_tag_advance_grant:1"]
P03("P03_downstream_traversal", "h_downstream", [NDW], ["notify_advance_grant_if_safe", NDW], n=3, unwind=5, search_flags=SRCH)
P03("P03_next_event_tag", "h_next", ["update_scheduling_node_next_event_tag_locked"], ["notify_advance_grant_if_safe", NDW], n=3, unwind=5, search_flags=SRCH)
P03("P03_logical_tag_complete", "h_completed", ["_logical_tag_complete"], ["notify_advance_grant_if_safe", NDW], n=3, unwind=5, search_flags=SRCH)

# ---- sockets
def xfer_loop(v):
    return [{"id": 0, "vars": [v], "assigns": f"{v}, g_pos, g_eof, g_hard, errno_loc", "inv":
             f"{v} >= 0 && (unsigned long){v} == g_pos && g_pos <= g_total && !g_eof && !g_hard"}]
def P10(name, h, fns, callees=(), loops=None, **kw):
    U("P10", Unit(name, "P10_socket.c", h, config="fedc", functions=fns, callees=callees, loops=loops, search_unwind=7, unwind=2,
                  bound="transfers of at most 3 bytes in at most 6 calls", **kw))
P10("P10_read_from_socket", "h_read", ["read_from_socket"], loops={"read_from_socket": xfer_loop("bytes_read")})
P10("P10_write_to_socket", "h_write", ["write_to_socket"], loops={"write_to_socket": xfer_loop("bytes_written")})
RW = ["read_from_socket", "write_to_socket"]
P10("P10_read_close_on_error", "h_read_close", ["read_from_socket_close_on_error"], RW)
P10("P10_write_close_on_error", "h_write_close", ["write_to_socket_close_on_error"], RW)
P10("P10_write_fail_on_error", "h_write_fail", ["write_to_socket_fail_on_error"], RW)
P10("P10_read_fail_on_error", "h_read_fail", ["read_from_socket_fail_on_error"], RW)

for n, f in [("int64", ["encode_int64", "extract_int64", "swap_bytes_if_big_endian_int64", "host_is_big_endian"]), ("int32", ["encode_int32", "extract_int32"]),
             ("uint32", ["encode_uint32", "extract_uint32"]), ("uint16", ["encode_uint16", "extract_uint16"]), ("tag", ["encode_tag", "extract_tag"]),
             ("decode", ["extract_int64", "extract_int32", "extract_uint32", "extract_uint16"]), ("header", ["extract_header"]),
             ("timed_header", ["extract_timed_header"]), ("stop", ["ENCODE_STOP_REQUEST", "ENCODE_STOP_REQUEST_REPLY", "ENCODE_STOP_GRANTED"])]:
    U("P09", Unit("P09_" + n, "P09_wire.c", "h_" + n, config="fedc", functions=f, unwind=90))

# ---- clock
CLK_LOOP = {"lf_clock_gettime": [{"id": 0, "vars": ["now", "last_read_local"],
    "assigns": "*now, last_read_local, last_read_physical_time, g_ptr, g_before_swap, g_installed, g_swapped",
    "inv": "!g_swapped && last_read_physical_time >= g_first && last_read_physical_time < 9223372036854775807L && *now >= g_corrected && "
           "(*now == g_corrected || (last_read_physical_time > g_corrected)) && 1"}]}
for c in ("multi", "fedc"):
    U("P17", Unit("P17_gettime_" + c, "P17_clock.c", "h_gettime", config=c, functions=["lf_clock_gettime"], loops=CLK_LOOP, search_unwind=4,
                  bound="at most 4 attempts", unwind=2, tier="quick"))
    U("P17", Unit("P17_sleep_" + c, "P17_clock.c", "h_sleep", config=c, functions=["lf_clock_interruptable_sleep_until_locked", "lf_clock_cond_timedwait"], unwind=2))
# ---- clock sync
def P23(name, h, fns, callees=(), **kw):
    U("P23", Unit(name, "P23_clocksync.c", h, config="fedc", functions=fns, callees=callees, unwind=18, search_unwind=18, **kw))
P23("P23_T1", "h_t1", ["handle_T1_clock_sync_message"])
for m in (0, 1):
    P23("P23_T4_" + ("initial", "runtime")[m], "h_t4", ["handle_T4_clock_sync_message", "update_socket_stat", "reset_socket_stat"], ["calculate_socket_stat"], defs=[f"-DUDPMODE={m}"], solver=["--sat-solver", "cadical"], search_flags=["--sat-solver", "cadical"])
P23("P23_offset", "h_offset", ["clock_sync_add_offset", "clock_sync_subtract_offset"])
P23("P23_adjust", "h_adjust", ["adjust_lf_clock_sync_offset", "reset_socket_stat"])
P23("P23_initial", "h_initial", ["synchronize_initial_physical_clock_with_rti"], ["read_from_socket_fail_on_error", "handle_T1_clock_sync_message", "handle_T4_clock_sync_message"], replay=False)

# ---- watchdogs
def P25(name, h, fns, **kw):
    kw = {"unwind": 5, "search_unwind": 5, "bound": "at most 4 wake-ups", **kw}
    U("P25", Unit(name, "P25_watchdog.c", h, config="watchdog", functions=fns, **kw))
P25("P25_wait", "h_wait", ["watchdog_wait"], loops={"watchdog_wait": [{"id": 0, "vars": ["watchdog", "physical_time"],
    "assigns": "physical_time, g_time, g_rearmed, watchdog->expiration, watchdog->terminate",
    "inv": "physical_time == g_time && g_held == 1 && (watchdog->expiration == (-9223372036854775807L - 1) || g_rearmed) && physical_time != (-9223372036854775807L - 1)"}]})
P25("P25_thread", "h_thread", ["watchdog_thread_main"], callees=["watchdog_wait"], loops={"watchdog_thread_main": [{"id": 0, "vars": ["watchdog"],
    "assigns": "g_time, g_rearmed, g_fired, watchdog->expiration, watchdog->terminate, watchdog->active",
    "inv": "g_held == 1 && g_time != (-9223372036854775807L - 1) && (watchdog->expiration == (-9223372036854775807L - 1) || g_rearmed)"}]})
P25("P25_control", "h_control", ["lf_watchdog_start", "lf_watchdog_stop", "_lf_watchdog_terminate"])
P25("P25_all", "h_all", ["_lf_initialize_watchdogs", "_lf_watchdog_terminate_all"], kind="bounded", bound="at most 3 watchdogs")

# ---- multiports
for c in ("multi", "single"):
    w = 3
    U("P19", Unit("P19_history_" + c, "P19_port.c", "h_history", config=c, functions=["lf_set_present", "_lf_multiport_iterator_impl", "lf_multiport_next", "_lf_start_time_step"],
                  kind="bounded", bound=f"width up to {w}, up to {2 if c == 'multi' else 4} writes by one thread and {1 if c == 'multi' else 0} by others at one tag, 2 at the next", defs=["-DW=%d" % w, "-DWRITES=%d" % (2 if c == "multi" else 4), "-DOTHERS=%d" % (1 if c == "multi" else 0)], unwind=w + 2, unwindset=["vector_at.0:3"]))
U("P19", Unit("P19_compare", "P19_port.c", "h_compare", functions=["compare_sizes"], defs=["-DWRITES=1", "-DOTHERS=0"]))

# ---- containers
PAST = [(f, "pointer (relation|arithmetic): pointer outside object bounds") for f in ("vector_at", "vector_resize", "vector_pushall", "vector_size")]
def P18(name, h, fns, loops=None, **kw):
    U("P18", Unit(name, "P18_vector.c", h, functions=fns, loops=loops, search_unwind=8, drop=PAST, **{"bound": "capacity at most 3", **kw}))
P18("P18_vector_new", "h_new", ["vector_new", "vector_free"])
P18("P18_vector_push", "h_push", ["vector_push", "vector_resize", "vector_size"])
P18("P18_vector_pop", "h_pop", ["vector_pop", "vector_resize"])
P18("P18_vector_vote", "h_vote", ["vector_vote"])
for c in (1, 2, 3):
    for h, f in [("at", ["vector_at", "vector_resize"]), ("pushall", ["vector_pushall", "vector_resize"])]:
        P18(f"P18_vector{c}_{h}", "h_" + h, f, kind="bounded", bound="capacity up to 3, index up to 6, up to 3 elements pushed at once", defs=[f"-DCAPC={c}"], unwind=8)
for nb in (1, 2, 3):
    for h, f in [("add", ["hashset_add", "hashset_add_member", "maybe_rehash"]), ("remove", ["hashset_remove"]), ("member", ["hashset_is_member"]),
                 ("iterate", ["hashset_iterator_next", "hashset_iterator_has_next", "hashset_iterator_value"]), ("create", ["hashset_create"])]:
        U("P18", Unit(f"P18_set{1 << nb}_{h}", "P18_hash.c", "h_" + h, functions=f, kind="bounded", bound="inductive over all histories; capacity 2, 4 and 8",
                      defs=[f"-DNB={nb}", "-DMCAP=2"], unwind=(2 << nb) + 2, tier="quick" if nb < 3 or h not in ("add", "remove") else "thorough"))
for mc in (1, 2, 3, 4):
    U("P18", Unit(f"P18_map{mc}_put", "P18_hash.c", "h_put", functions=["hashmap_put", "hashmap_get", "hashmap_get_actual_address"], kind="bounded", tier="quick" if mc < 4 else "thorough",
                  bound="inductive over all histories; capacity 1 to 4", defs=["-DNB=3", f"-DMCAP={mc}"], unwind=18))
U("P18", Unit(f"P18_map_new", "P18_hash.c", "h_mapnew", functions=["hashmap_new"], kind="bounded", bound="capacity 4", defs=["-DNB=3", f"-DMCAP=4"], unwind=18))

# ---- priority queues
_PQ = [("insert", ["pqueue_insert", "bubble_up"]), ("pop", ["pqueue_pop", "pqueue_peek", "percolate_down", "maxchild"]), ("remove", ["pqueue_remove"]),
       ("find", ["pqueue_find_same_priority", "pqueue_find_equal_same_priority"]), ("merge", ["pqueue_empty_into"])]
_PQT = [("tag_insert", ["pqueue_tag_insert_tag", "pqueue_tag_insert_if_no_match", "pqueue_tag_find_with_tag"]),
        ("tag_upto", ["pqueue_tag_remove_up_to"]), ("tag_pop", ["pqueue_tag_pop_tag", "pqueue_tag_peek_tag"])]
for n in range(0, 7):
    for h, f in _PQ:
        if (n == 0 and h == "remove") or (h == "merge" and n > 2): continue
        nn = 2 if h == "merge" else max(n, 1)
        for sw in ([], ["-DSWAP"]) if h == "merge" else ([],):
            U("P13", Unit(f"P13_{h}_{n}" + ("s" if sw else ""), "P13_pqueue.c", "h_" + h, functions=f, kind="bounded",
                          bound="inductive over all histories; at most 6 elements before the operation (merge: 3 in total)",
                          tier="quick" if n in (0, 1, 2, 4, 5) else "thorough", defs=[f"-DNIN={n}", f"-DN={nn}"] + sw, unwind=nn + 3))
for n in range(0, 4):
    for h, f in _PQ[:4] + _PQT:
        if n == 0 and h == "remove": continue
        U("P13", Unit(f"P13_tagq_{h}_{n}", "P13_pqueue.c", "h_" + h, functions=f + ["pqueue_tag_compare"], kind="bounded",
                      tier="quick" if n < 3 else "thorough",
                      bound="inductive over all histories; at most 3 elements before the operation", defs=[f"-DNIN={n}", f"-DN={max(n, 1)}", "-DTAGQ"], unwind=max(n, 1) + 3))

# ---- coordinator handlers: stop, join, routing, departure; the same units with lock discipline checked are P26's
LE2 = LE + ["rti_setup.0:4"]
def RTIU(props, name, file, h, fns, callees=(), n=3, unwind=None, p26=True, sdefs=(), **kw):
    b = kw.pop("bound", "at most %d federates" % n)
    for p in list(props) + (["P26"] if p26 else []):
        U(p, Unit(f"{p}_{name}", file, h, config="rti", functions=fns, callees=list(callees), unwind=unwind or n + 2, kind="bounded", bound=b, small=True,
                  defs=[f"-DNN={n}"] + (["-DVF_P26"] if p == "P26" else []) + list(kw.get("xdefs", ())), unwindset=kw.get("us", LE), **{k: v for k, v in kw.items() if k not in ("us", "xdefs")}))
SR = ["--unwindset", NDW + ":1,_update_min_delays_upstream:1,notify_provisional_tag_advance_grant:1"]
STOPF = ["mark_federate_requesting_stop", "broadcast_stop_time_to_federates_locked"]
RTIU(["P05", "P08"], "stop_request", "P05_stop.c", "h_request", ["handle_stop_request_message"] + STOPF, us=LE + ["begin.0:14"])
RTIU(["P05", "P08"], "stop_reply", "P05_stop.c", "h_reply", ["handle_stop_request_reply"] + STOPF, us=LE + ["begin.0:14"])
RTIU(["P05", "P08"], "resign", "P05_stop.c", "h_resign", ["handle_federate_resign"] + STOPF, [NDW], search_flags=SR)
RTIU(["P05", "P08"], "failed", "P05_stop.c", "h_failed", ["handle_federate_failed"] + STOPF, [NDW], search_flags=SR)
for ln, fr in ((0, 0), (1, 0), (2, 0), (3, 0), (2, 1), (2, 2)):
    RTIU(["P06"], f"join{ln}" + (f"_read{fr}_fails" if fr else ""), "P06_join.c", "h_join", ["receive_and_check_fed_id_message", "send_reject"], n=2, unwind=8, us=LE + ["read.0:42", "h_join.1:10"],
         bound="2 federates, own identifier of at most 4 characters, received one of at most 3", xdefs=[f"-DVF_FAIL_READ={fr}", f"-DLEN={ln}", "-DNU=0", "-DND=0"])
RTIU(["P06"], "connect", "P06_join.c", "h_connect", ["lf_connect_to_federates"],
     ["receive_and_check_fed_id_message", "receive_connection_information", "receive_udp_message_and_set_up_clock_sync"], n=2, unwind=6, p26=False,
     bound="2 federates, at most 4 connection attempts", us=LE + ["read.0:42", "my_accept.0:18"], search_unwind=3, search_defs=["-UNN", "-DNN=1", "-DVF_FAIL_READ=0"], flags=["--no-unwinding-assertions"])
RTIU(["P06"], "start", "P06_join.c", "h_start", ["handle_timestamp"], n=3, unwind=9, us=LE + ["read.0:42"])
for nu, nd in ((0, 0), (1, 0), (0, 1), (2, 1), (1, 2)):
    RTIU(["P04"], f"neighbors{nu}{nd}", "P06_join.c", "h_neighbors", ["receive_connection_information"], n=2, unwind=5, us=LE + ["read.0:42", "h_neighbors.0:38"],
         bound="at most 2 upstream and 2 downstream neighbors", xdefs=["-DLEN=0", f"-DNU={nu}", f"-DND={nd}"])
PQF = ["pqueue_tag_insert_if_no_match", "pqueue_tag_peek_tag", "pqueue_tag_remove_up_to"]
UPD = ["update_scheduling_node_next_event_tag_locked", "_logical_tag_complete"]
RTIU(["P07", "P08"], "port_absent", "P07_route.c", "h_absent", ["handle_port_absent_message"], PQF + UPD, n=3, us=LE + ["h_absent.0:18", "read.0:58"], search_flags=SR)
RTIU(["P07"], "next_event", "P07_route.c", "h_net", ["handle_next_event_tag", "update_federate_next_event_tag_locked"], PQF + UPD, n=3, us=LE + ["h_net.0:14", "read.0:58"], search_flags=SR)
RTIU(["P07"], "tag_complete", "P07_route.c", "h_ltc", ["handle_latest_tag_confirmed"], PQF + UPD, n=3, us=LE + ["h_ltc.0:14", "read.0:58"], search_flags=SR)
def chunk(w): return {"id": 0, "vars": ["total_bytes_read", "total_bytes_to_read", "bytes_to_read"],
                      "assigns": "total_bytes_read, bytes_to_read, g_rd, g_wr, g_any_write, __CPROVER_object_whole(msg_buf)",
                      "inv": "total_bytes_read >= 21 && total_bytes_read <= total_bytes_to_read && total_bytes_to_read == g_total + 1 && g_rd + 1 == total_bytes_read"
                             + (" && g_wr == total_bytes_read" if w else " && g_wr == 0 && !g_any_write")}
RTIU(["P07", "P08"], "timed", "P07_route.c", "h_timed", ["handle_timed_message"], PQF + UPD, n=2, unwind=4, us=LE + ["h_timed.0:22", "h_timed.1:32", "read.0:58"], search_flags=SR,
     loops={"handle_timed_message": [dict(chunk(False), id=1, scope="deep"), dict(chunk(True), id=2, scope="shallow")]}, search_unwind=8,
     bound="2 federates; messages of any length (loop invariants)")
MDF = ["update_min_delays_upstream", "_update_min_delays_upstream", "is_in_cycle", "is_in_zero_delay_cycle"]
def P04(name, h, ups, dmax=None, fixed=False, **kw):
    n, mu = len(ups), len(ups[0])
    U("P04", Unit("P04_" + name, "P04_delays.c", h, config="rti", functions=MDF, kind="bounded", unwind=max(n, mu) + 2, unwindset=[f"_update_min_delays_upstream:{n}"],
                  bound="at most 3 nodes, each declaring at most 3 upstream connections, in the listed orders" + (f", delays up to {dmax}" if dmax else "") + (", full lists" if fixed else ""),
                  defs=[f"-DNN={n}", f"-DMU={mu}", "-DUPS={" + ",".join("{" + ",".join(map(str, r)) + "}" for r in ups) + "}"] + ([f"-DDMAX={dmax}"] if dmax else []) + (["-DFIXED_LENGTHS"] if fixed else []), **kw))
P04("delays2", "h_delays", [[0, 1], [0, 1]])
P04("delays2b", "h_delays", [[1, 1], [1, 0]])
P04("ring3", "h_delays", [[2], [0], [1]], fixed=True)
P04("full3", "h_delays", [[2, 1], [2, 0], [1, 0]], dmax=3, fixed=True)
P04("chain3", "h_delays", [[1, 2], [2, 2], [2, 2]], fixed=True)
P04("cache", "h_cache", [[0, 1], [0, 1]])

# ---- scheduling
def SCH(v): return [{"id": 0, "scope": "shallow", "vars": [v, "e", "found"], "assigns": f"{v}.microstep, e->base.tag, found, qev->base.tag, looked, looked_taken, probe_seen",
    "inv": f"{v}.microstep >= __CPROVER_loop_entry({v}.microstep) && {v}.microstep < 4294967295u && (!looked_taken || {v}.microstep < 4294967294u) && e->base.tag.time == {v}.time && "
           f"e->base.tag.microstep == {v}.microstep && looked.time == {v}.time && looked.microstep == {v}.microstep && (found != 0) == looked_taken && "
           f"(!(probe.time == {v}.time && probe.microstep >= __CPROVER_loop_entry({v}.microstep) && probe.microstep < {v}.microstep) || probe_seen) && "
           "(!(looked_taken && probe.time == looked.time && probe.microstep == looked.microstep) || probe_seen)"}]
SCH_LOOP = {"lf_schedule_trigger": SCH("intended_tag"), "_lf_schedule_at_tag": SCH("tag")}
for prop, d in (("P11", []), ("P16", ["-DVF_P16"])):
    U(prop, Unit(prop + "_schedule_trigger", "P11_schedule.c", "h_trigger", functions=["lf_schedule_trigger", "lf_replace_token"], defs=d, unwind=6, loops={k: v for k, v in SCH_LOOP.items() if k == "lf_schedule_trigger"}),
      Unit(prop + "_schedule_at_tag", "P11_schedule.c", "h_at_tag", functions=["_lf_schedule_at_tag", "lf_replace_token"], defs=d, unwind=6, loops={k: v for k, v in SCH_LOOP.items() if k != "lf_schedule_trigger"}))

# ---- logical time
def LEQ(a, b, strict=False): return f"({a}.time < {b}.time || ({a}.time == {b}.time && {a}.microstep {'<' if strict else '<='} {b}.microstep))"
BAR_ASG = "head_ev->base.tag, env->barrier.requestors, env->barrier.horizon, env->stop_tag, head_on, head_tag, n_effects"
BAR_INV = ("env->barrier.requestors >= 0 && (env->barrier.requestors != 0 || (env->barrier.horizon.time == 9223372036854775807L && env->barrier.horizon.microstep == 4294967295u)) && "
           "(env->barrier.requestors == 0 || " + LEQ("env->current_tag", "env->barrier.horizon", True) + ") && "
           "(!head_on || (" + LEQ("env->current_tag", "head_tag", True) + " && head_tag.time < 2305843009213693951L))")
WAITB = [{"id": 0, "vars": ["proposed_tag", "result"], "assigns": "proposed_tag, result, " + BAR_ASG,
          "inv": BAR_INV + " && result == (n_effects > 0) && " + LEQ("env->stop_tag", "__CPROVER_loop_entry(env->stop_tag)")
                 + " && " + LEQ("proposed_tag", "env->stop_tag") + " && (" + LEQ("env->stop_tag", "proposed_tag") + " || (proposed_tag.time == __CPROVER_loop_entry(proposed_tag.time) && proposed_tag.microstep == __CPROVER_loop_entry(proposed_tag.microstep)))"}]
def P14(name, h, fns, cfgs=("multi",), props=("P14",), defs=(), **kw):
    for pr in props:
        for c in cfgs:
            U(pr, Unit(f"{pr}_{name}_{c}", "P14_time.c", h, config=c, functions=fns, defs=list(defs) + (["-DVF_P26"] if pr == "P26" else []), **{"unwind": 4, "search_unwind": 4, **kw}))
P14("barrier_up", "h_barrier_up", ["_lf_increment_tag_barrier_locked", "_lf_increment_tag_barrier"], props=("P14", "P26"))
P14("barrier_down", "h_barrier_down", ["_lf_decrement_tag_barrier_locked"], props=("P14", "P26"))
P14("barrier_wait", "h_barrier_wait", ["_lf_wait_on_tag_barrier"], loops={"_lf_wait_on_tag_barrier": WAITB}, bound="at most 3 wake-ups")
P14("stop_tag", "h_stop_tag", ["lf_set_stop_tag", "lf_is_tag_after_stop_tag", "environment_init_tags"], cfgs=("multi", "single"))
P14("advance", "h_advance", ["_lf_advance_tag"])
P14("next_event_tag", "h_next_tag", ["get_next_event_tag"], props=("P14", "P12"))
P14("request_stop", "h_request_stop", ["lf_request_stop"], cfgs=("multi",), props=("P14", "P26"), kind="bounded", bound="3 environments", defs=["-DNE=3"])
P14("request_stop", "h_request_stop", ["lf_request_stop"], cfgs=("single",))
P14("request_stop", "h_request_stop", ["lf_request_stop"], cfgs=("fedc",), props=("P22",), kind="bounded", bound="3 environments", defs=["-DNE=3"])
NEXT_INV = (BAR_INV + " && " + LEQ("env->current_tag", "env->stop_tag") + " && " + LEQ("env->stop_tag", "__CPROVER_loop_entry(env->stop_tag)") +
            " && ((head_on && " + LEQ("head_tag", "next_tag") + ") || " + LEQ("env->stop_tag", "next_tag") + ") && g_phys >= 0 && g_phys < 2305843009213693951L")
def NEXTL(i, more=""): return [{"id": i, "vars": ["next_tag"], "assigns": BAR_ASG + ", next_tag, g_phys, wait_limit", "inv": NEXT_INV + more, "scope": "deep"}]
NEXTC = [{"id": 0, "vars": ["next_tag", "grant_tag"], "assigns": BAR_ASG + ", next_tag, grant_tag, g_grant, g_asked",
          "inv": NEXT_INV + " && g_asked && grant_tag.time == g_grant.time && grant_tag.microstep == g_grant.microstep", "scope": "deep"}]
for cfg, loops in (("multi", NEXTL(0)), ("fedd", NEXTL(0)), ("fedc", NEXTC + NEXTL(1, " && " + LEQ("next_tag", "g_grant")))):
    P14("next", "h_next", ["_lf_next_locked", "get_next_event_tag", "_lf_advance_tag", "wait_until"], cfgs=(cfg,), props=("P14", "P12"), loops={"_lf_next_locked": loops},
        callees=["_lf_wait_on_tag_barrier"] if cfg != "multi" else [], small=cfg != "multi", search_unwind=3 if cfg == "fedc" else 4, bound="at most 3 wake-ups")
P14("next", "h_next", ["next", "_lf_advance_tag", "wait_until"], cfgs=("single",), props=("P14", "P12"))

# ---- events of a tag
def P12(name, h, fns, cfgs=("multi", "modal", "fedd"), **kw):
    for c in cfgs:
        U("P12", Unit(f"P12_{name}_{c}", "P12_events.c", h, config=c, functions=fns, **{"unwind": 5, "search_unwind": 5, "kind": "bounded", "bound": "at most 3 reactions per trigger", **kw}))
P12("pop", "h_pop", ["_lf_pop_events", "lf_recycle_event"], cfgs=("multi", "modal", "single"), unwindset=["_lf_pop_events.1:4"], bound="at most 3 events of the tag, 3 reactions per trigger")
P12("pop", "h_pop", ["_lf_pop_events", "lf_recycle_event"], cfgs=("fedd", "fedc"), unwindset=["_lf_pop_events.1:3"], defs=["-DNR=2"], solver=["--sat-solver", "cadical"], search_flags=["--sat-solver", "cadical"], bound="at most 2 events of the tag, 2 reactions per trigger")
P12("timer", "h_timer", ["_lf_initialize_timer"], cfgs=("multi", "modal"))
P12("start_stop", "h_start_stop", ["_lf_trigger_startup_reactions", "_lf_trigger_shutdown_reactions"], cfgs=("multi", "modal"))
# ---- reactions
def P15(name, file, h, fns, cfgs=("multi",), **kw):
    for c in cfgs:
        U("P15", Unit(f"P15_{name}_{c}", file, h, config=c, functions=fns, **{"unwind": 4, "search_unwind": 4, "kind": "bounded", "bound": "see unit", **kw}))
for nm, d, cfgs in (("outputs", ["-DND=2"], ("multi", "single", "modal", "fedd")), ("triggers", ["-DNO=1", "-DNT=2"], ("multi",))):
    P15(nm, "P15_output.c", "h_output", ["schedule_output_reactions", "_lf_invoke_reaction"], cfgs=cfgs, unwind=5, search_unwind=5, unwindset=["schedule_output_reactions:3"], callees=["schedule_output_reactions"], defs=d,
        bound="at most 2 outputs with 1 trigger (or 1 output with 2 triggers) of 2 reactions each, drawn from 2 (3) downstream reactions", timeout=400, solver=["--sat-solver", "cadical"], search_flags=["--sat-solver", "cadical"])
for cfg in ("multi", "gedf", "fedc", "fedgedf"):
    for h, f in (("trigger", ["lf_scheduler_trigger_reaction", "lf_sched_init"]), ("get", ["lf_sched_get_ready_reaction", "lf_sched_done_with_reaction"])):
        for L, lv in ((2, (0, 1, 1)), (2, (0, 0, 1)), (3, (0, 2, 2)), (2, (0, 1))):
            if len(lv) == 2 and (cfg, h) != ("fedc", "get"): continue
            P15(f"sched_{h}" + "".join(map(str, lv)), "P15_sched.c", "h_" + h, f, cfgs=(cfg,), defs=[f"-DL={L}", f"-DNR={len(lv)}", "-DLEVS={" + ",".join(map(str, lv)) + "}"],
                unwind=max(L, len(lv)) + 2, search_unwind=max(L, len(lv)) + 2,
                tier="thorough" if (cfg, h) == ("fedc", "get") and len(lv) == 3 else "quick", timeout=400,
                bound="2 or 3 levels, 3 reactions, at most 3 workers, 2 tags", solver=["--sat-solver", "cadical"], search_flags=["--sat-solver", "cadical"])
# ---- federates
def FEDU(prop, name, h, fns, cfgs=("fedc",), **kw):
    for c in cfgs:
        U(prop, Unit(f"{prop}_{name}_{c}", "P21_fed.c", h, config=c, functions=fns, **{"unwind": 4, "search_unwind": 4, "unwindset": ["record.0:41", "read_from_socket_fail_on_error.0:17"] + [f"{f}.{i}:14" for f in ("put_tag", "get_tag", "encode_int64", "encode_int32", "encode_uint32", "encode_uint16") for i in (0, 1)] + ["vf_lock_index.0:8"], "kind": "bounded",
                     "bound": "at most 3 environments, 2 input ports", "solver": ["--sat-solver", "cadical"], "search_flags": ["--sat-solver", "cadical"], "defs": ["-DNE=1"] if prop == "P21" else [], "timeout": 400, **kw}))
FEDU("P22", "stop_request_message", "h_stop_request", ["handle_stop_request_message"])
FEDU("P22", "stop_granted_message", "h_stop_granted", ["handle_stop_granted_message"])
FEDU("P22", "send_stop_request", "h_stop_send", ["lf_send_stop_request_to_rti"], kind="proof")
FEDU("P21", "level", "h_level", ["lf_update_max_level"], cfgs=("fedc", "fedd"))
FEDU("P21", "stall", "h_stall", ["lf_stall_advance_level_federation", "lf_stall_advance_level_federation_locked"], flags=["--no-unwinding-assertions"])
FEDU("P21", "tag", "h_tag", ["handle_tag_advance_grant", "update_last_known_status_on_input_ports"])
FEDU("P21", "ptag", "h_ptag", ["handle_provisional_tag_advance_grant", "lf_latest_tag_confirmed", "lf_update_max_level"])
FEDU("P21", "port", "h_port", ["update_last_known_status_on_input_port", "action_for_port"], cfgs=("fedc", "fedd"))
FEDU("P21", "ltc", "h_ltc", ["lf_latest_tag_confirmed", "send_tag"], kind="proof")
FEDU("P21", "bounded_NET", "h_bounded", ["bounded_NET"], kind="proof")
FEDU("P21", "send", "h_send", ["lf_send_tagged_message"], kind="proof", cfgs=("fedc", "fedd"))
# ---- enclaves
def P24(name, h, fns, **kw):
    U("P24", Unit(f"P24_{name}", "P24_local.c", h, config="enclave", functions=fns, **{"unwind": 4, "search_unwind": 4, "unwindset": ["vf_lock_index.0:8", "vf_signaled.0:6"], "kind": "proof",
                  "solver": ["--sat-solver", "cadical"], "search_flags": ["--sat-solver", "cadical"], **kw}))
P24("grant", "h_grant", ["notify_tag_advance_grant", "notify_provisional_tag_advance_grant"])
P24("next_event", "h_net", ["rti_next_event_tag_locked"], kind="bounded", bound="the grant arrives at the latest during the second wait; 2 enclaves")
P24("single", "h_net1", ["rti_next_event_tag_locked", "rti_logical_tag_complete_locked"])
P24("complete", "h_ltc", ["rti_logical_tag_complete_locked"])
P24("hand_over", "h_other", ["rti_update_other_net_locked"])
P24("init", "h_init", ["initialize_local_rti", "initialize_enclave_info"], kind="bounded", bound="2 enclaves")
