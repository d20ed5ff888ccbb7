#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the text stays reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m} for n, m in state]
    if observe: a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

prop("P01", "Logical-time arithmetic is exact, saturating and totally ordered",
 "Comparing two tags is the lexicographic total order on (time, microstep); adding times or tags gives the exact mathematical sum or, when that does not fit or an operand is infinite, saturates at the corresponding infinity instead of wrapping. "
 "Delaying a tag by a zero delay moves it to the next microstep, by a positive delay moves the time and resets the microstep, never yields an earlier tag (short of microstep wrap-around), and the strict delay is the greatest tag that is earlier than the delayed tag for a positive finite delay.",
 ["inputs"], "every 64-bit time/interval (including both infinities and every value whose sum overflows) and every 32-bit microstep",
 "tag_test compares a handful of constants; overflow near the ends of the 64-bit range depends on exact values and on the optimiser.",
 ["core/tag.c", "tag/api/tag.h"],
 [("lf_time_add / lf_tag_add", "core/tag.c"), ("lf_tag_compare", "core/tag.c"), ("lf_delay_tag / lf_delay_strict", "core/tag.c")])

prop("P02", "RTI never grants a tag an upstream federate can still send to",
 "Whatever the federation's topology and the reported progress of its members, the coordinator gives a federate a final grant for a tag only if no connected federate upstream of it, directly or through any path, can still cause a message to it with that tag or an earlier one; a provisional grant is decided on only for a federate inside a zero-delay cycle, only for its own pending tag (the start tag if it has not reported one), and only if no message with a strictly earlier tag can still arrive; federates upstream of it may be given the same provisional grant along with it, under the same safety condition. "
 "Conversely, when these conditions hold for a pending tag that has not been granted yet, the decision is to grant it.",
 ["histories", "inputs", "configurations"], "every topology (any number of federates, delays, cycles), every combination of completed, next-event, granted and provisionally granted tags, and every connection state",
 "rti_common_test only checks cycle detection and minimum delays on three small graphs; no test drives a grant decision.",
 ["core/federated/RTI/rti_common.c", "core/federated/RTI/rti_common.h"],
 [("tag_advance_grant_if_safe", "core/federated/RTI/rti_common.c"), ("earliest_future_incoming_message_tag", "core/federated/RTI/rti_common.c"), ("eimt_strict", "core/federated/RTI/rti_common.c")],
 [("scheduling_node_t.completed/next_event/last_granted/last_provisionally_granted", "reported progress and grants of one federate")])

prop("P03", "Grants only move forward and reach every unblocked downstream federate",
 "The sequence of tags granted to one federate is monotone: a final grant is sent only if it exceeds every earlier final grant and is not below an earlier provisional one, a provisional grant only if it exceeds every earlier grant of either kind, the recorded grant always equals the one put on the wire, and nothing is sent to or recorded for a federate that is not connected. "
 "Whenever a federate's reported progress increases, every federate transitively downstream of it has its grant re-evaluated exactly as the grant rule demands.",
 ["histories", "inputs", "configurations"], "every federation state and every candidate grant tag, every connection state, every topology",
 "No existing test sends a grant; monotonicity is a property of whole histories of grants.",
 ["core/federated/RTI/rti_remote.c", "core/federated/RTI/rti_common.c"],
 [("notify_tag_advance_grant / notify_provisional_tag_advance_grant", "core/federated/RTI/rti_remote.c"), ("notify_advance_grant_if_safe, notify_downstream_advance_grant_if_safe, _logical_tag_complete", "core/federated/RTI/rti_common.c")])

prop("P04", "Coordinator's minimum delays are the shortest upstream path delays",
 "For every topology, the minimum delay the coordinator associates with a federate for each of its transitive upstream federates is the minimum, over all connection paths between them through federates that are connected when it is computed, of the accumulated tag delay along the path, with federates that have no path excluded; the connections are recorded as each federate declares them. "
 "A federate is flagged as being in a cycle exactly when it can reach itself, and in a zero-delay cycle exactly when it can do so along connections without delay.",
 ["configurations"], "every directed graph of connections and every non-negative delay (or no delay) on each",
 "Three hand-built graphs of four nodes are tested; the property quantifies over all graphs and delays.",
 ["core/federated/RTI/rti_common.c"],
 [("update_min_delays_upstream, _update_min_delays_upstream", "core/federated/RTI/rti_common.c"), ("is_in_cycle / is_in_zero_delay_cycle", "core/federated/RTI/rti_common.c")])

prop("P05", "Federation-wide stop happens at one agreed tag no member has passed",
 "When a stop is requested, every connected federate other than the requesters is asked, each federate's answer is counted once, and when all have answered, requested or departed the coordinator announces exactly once to every connected federate one and the same stop tag, which is the maximum of all proposed tags. "
 "From a federate's request or answer on, its pending tag as seen by the coordinator never exceeds the agreed stop tag when the latter is announced.",
 ["histories", "inputs", "configurations"], "every number of federates and connection state, every order and duplication of stop requests and replies and every proposed tag",
 "No test exercises stop negotiation; the outcome depends on the order and tags of messages from several parties.",
 ["core/federated/RTI/rti_remote.c"],
 [("handle_stop_request_message, handle_stop_request_reply", "core/federated/RTI/rti_remote.c"), ("mark_federate_requesting_stop, broadcast_stop_time_to_federates_locked", "core/federated/RTI/rti_remote.c")])

prop("P06", "A federation starts once at one agreed time, and strangers are refused",
 "A joining process is admitted only if it presents exactly this federation's identifier and a federate ID that is within range and not already connected; otherwise it is answered with the matching rejection cause and the federation's state is unchanged. "
 "The start time is announced only after all federates have proposed one, is the same for all, and is the maximum proposal plus the fixed startup offset.",
 ["inputs", "histories", "configurations"], "every received identifier byte string, length and ID, every prior connection state, every set and order of proposed times (each federate proposes once)",
 "No test connects a federate to the coordinator, let alone with a wrong identifier or in a particular order.",
 ["core/federated/RTI/rti_remote.c"],
 [("receive_and_check_fed_id_message, send_reject", "core/federated/RTI/rti_remote.c"), ("handle_timestamp", "core/federated/RTI/rti_remote.c")])

prop("P07", "Routed messages arrive intact, once, and hold back the receiver's grants",
 "A tagged message or port-absent notice routed through the coordinator is delivered to exactly the addressed federate, byte for byte and complete, whatever its length relative to internal buffers, and is dropped only if the addressee is not connected. "
 "While a tagged message is in transit to a federate, the coordinator treats the federate's next event as no later than the message's tag, until the federate reports that tag complete; progress reports update only the reporting federate's record.",
 ["inputs", "histories"], "every message length and content, destination within the federation, tag at or after the start, and pending in-transit set",
 "No test routes a message; buffer-boundary lengths and in-transit accounting need specific sequences.",
 ["core/federated/RTI/rti_remote.c", "core/utils/pqueue_tag.c"],
 [("handle_timed_message, handle_port_absent_message", "core/federated/RTI/rti_remote.c"), ("update_federate_next_event_tag_locked, handle_next_event_tag, handle_latest_tag_confirmed", "core/federated/RTI/rti_remote.c")])

prop("P08", "A departed federate stops constraining and stops receiving",
 "When a federate resigns or reports failure it is marked not connected, its sockets are closed, its pending tag becomes infinite, and every federate downstream of it is re-evaluated so that none stays blocked on it; afterwards nothing is sent to it and it is ignored in every grant and stop decision.",
 ["histories", "fault_sequences"], "every federation state at the moment of departure",
 "No test makes a federate leave.",
 ["core/federated/RTI/rti_remote.c", "core/federated/RTI/rti_common.c"],
 [("handle_federate_resign, handle_federate_failed", "core/federated/RTI/rti_remote.c")])

prop("P09", "Wire encoding and decoding are inverse and use one fixed byte order",
 "For every 16-, 32- and 64-bit value and every tag and message header, encoding writes exactly the value's little-endian bytes and nothing else, and decoding returns exactly the encoded value; composite message layouts (stop request, stop reply, stop granted, address, neighbor structure) place each field at its documented position without overlap.",
 ["inputs"], "every value of each integer type, every tag, every port/federate ID and message length",
 "No test covers the network utilities.",
 ["core/federated/network/net_util.c", "include/core/federated/network/net_common.h"],
 [("encode_*/extract_*", "core/federated/network/net_util.c"), ("ENCODE_STOP_REQUEST, ENCODE_STOP_REQUEST_REPLY, ENCODE_STOP_GRANTED", "include/core/federated/network/net_common.h")])

prop("P10", "Socket transfers deliver every byte in order or report failure",
 "Reading or writing a given number of bytes either transfers exactly those bytes, each once and in order, and reports success, or reports failure; partial transfers, interruptions and would-block conditions are retried transparently, and end of stream or a hard error is never reported as success. "
 "The closing variants leave the descriptor marked closed exactly when they report failure.",
 ["fault_sequences", "inputs"], "every byte count and every sequence of results (short counts, retryable errors, hard errors, end of stream) of the underlying system calls",
 "Tests never exercise sockets; short reads and EINTR cannot be provoked on demand.",
 ["core/federated/network/net_util.c"],
 [("read_from_socket, write_to_socket and *_close_on_error", "core/federated/network/net_util.c")])

prop("P11", "Scheduled events land strictly in the future and respect action constraints",
 "Scheduling an action places an event at a tag strictly later than the current one, no earlier than the action's minimum delay plus the requested extra delay dictate, at a distance from the trigger's previous event that honours its minimum spacing under the declared policy (defer, drop or replace), and never after the stop tag; physical actions are additionally never placed before physical time. "
 "A successful call adds exactly one event (or replaces the payload of exactly one) for that trigger at that tag, an unsuccessful one leaves the queue unchanged, and no two queued events for a trigger share a tag under the defer policy.",
 ["inputs", "histories"], "every current tag, extra delay, offset, minimum spacing, policy, physical clock value, stop tag and queue content",
 "The scheduling API test schedules three fixed events.",
 ["lib/schedule.c", "core/reactor_common.c"],
 [("lf_schedule_trigger", "lib/schedule.c"), ("_lf_schedule_at_tag", "core/reactor_common.c")])

prop("P12", "Exactly the events of the current tag are taken from the queue, none lost",
 "When logical time reaches a tag, every queued event with that tag is removed and each of its trigger's reactions is triggered once with the event's payload and marked present, while events at later tags stay queued; a periodic timer is re-queued exactly one period later. "
 "The next tag to be processed is the smaller of the earliest queued tag and the stop tag.",
 ["histories", "inputs"], "every queue content and current tag",
 "Tests process a few events with distinct tags.",
 ["core/reactor_common.c", "core/utils/pqueue_tag.c", "core/reactor.c", "core/threaded/reactor_threaded.c"],
 [("_lf_pop_events", "core/reactor_common.c"), ("get_next_event_tag", "core/threaded/reactor_threaded.c"), ("pqueue_tag_*", "core/utils/pqueue_tag.c")])

prop("P13", "The priority queue always yields a minimal element and loses nothing",
 "After any sequence of insertions, removals and pops, the queue holds exactly the elements inserted and not yet removed, each element knows its own position, peek and pop return an element whose priority is not after that of any other, and lookups find an element if and only if a matching one is present.",
 ["histories", "inputs"], "every queue size and content and every next operation (removal up to a finite tag)",
 "pqueue_test inserts three elements; heap bugs show only for particular shapes and removal positions.",
 ["core/utils/pqueue_base.c", "core/utils/pqueue_tag.c", "core/utils/pqueue.c"],
 [("bubble_up / percolate_down, pqueue_insert, pqueue_pop, pqueue_remove", "core/utils/pqueue_base.c"), ("pqueue_find_equal_same_priority, pqueue_find_equal", "core/utils/pqueue_base.c"), ("pqueue_tag_*", "core/utils/pqueue_tag.c")])

prop("P14", "Logical time only advances, never past the stop tag or a raised barrier",
 "The current tag never decreases and never passes the stop tag; the stop tag never increases once set and stays after the current tag when set by a stop request. "
 "While a barrier is raised, time does not advance past its horizon, and the horizon is never raised beyond the earliest tag requested while any request is outstanding. Unless execution runs in fast mode, logical time does not run ahead of physical time (by more than the minimum sleep).",
 ["histories", "inputs", "schedules"], "every current tag, requested tag, stop tag, number of outstanding barrier requests",
 "Tests advance time monotonically in a short run; barriers and stop are not exercised.",
 ["core/reactor_common.c", "core/threaded/reactor_threaded.c", "core/environment.c"],
 [("_lf_advance_tag, lf_set_stop_tag", "core/reactor_common.c"), ("_lf_increment_tag_barrier_locked, _lf_decrement_tag_barrier_locked, _lf_wait_on_tag_barrier", "core/threaded/reactor_threaded.c"), ("lf_request_stop", "core/threaded/reactor_threaded.c")])

prop("P15", "Each triggered reaction runs once per tag, in dependency order",
 "A reaction that is triggered at a tag is queued exactly once no matter how often it is triggered, triggering through an output reaches exactly the reactions connected to the outputs that were actually written, and queued reactions are handed out in order (level by level; in the deadline-based scheduler, earliest deadline first and then by level), each to one worker, with the tag advancing only when all of them are done. "
 "A reaction whose deadline has passed has its deadline handler invoked instead of its body, and only then.",
 ["schedules", "inputs", "configurations"], "every reaction graph slice (outputs, triggered reactions, levels, deadlines), status combination, worker interleaving at the atomic status change, and clock value",
 "The tests run one trivial program; duplicates need a particular interleaving or graph.",
 ["core/reactor_common.c", "core/threaded/scheduler_NP.c", "core/threaded/scheduler_GEDF_NP.c", "core/reactor.c", "core/threaded/reactor_threaded.c"],
 [("schedule_output_reactions, trigger_output_reactions", "core/reactor_common.c"), ("lf_scheduler_trigger_reaction, lf_scheduler_get_ready_reaction", "core/threaded/scheduler_NP.c"), ("_lf_worker_handle_deadline_violation_for_reaction", "core/threaded/reactor_threaded.c")])

prop("P16", "Message payloads live exactly as long as somebody refers to them",
 "A payload's reference count equals the number of holders (queued events, ports or actions that carry it, user references); a payload is destroyed exactly once, when and only when the last holder releases it, and is never changed while shared: a writer obtains a private copy unless it is the only holder. "
 "Every scheduling call consumes the caller's payload on success and on every failure path alike.",
 ["histories", "inputs", "fault_sequences"], "every token state (shared, template-held, fresh), every reference count, every outcome of a scheduling call",
 "Tests check one schedule/set sequence; leaks and double frees occur on rejection and sharing paths.",
 ["core/lf_token.c", "lib/schedule.c", "core/reactor_common.c"],
 [("_lf_free_token, _lf_done_using, _lf_new_token, _lf_get_token, _lf_initialize_token_with_value, lf_writable_copy, _lf_replace_template_token", "core/lf_token.c"), ("lf_schedule_trigger, _lf_schedule_at_tag", "lib/schedule.c, core/reactor_common.c")])

prop("P17", "The runtime's physical clock never runs backwards",
 "Successive readings of the runtime's physical clock strictly increase or repeat as documented, even if the underlying clock steps backwards and even with concurrent readers; a reading is never less than any reading completed before it began, and equals the corrected underlying clock whenever that already exceeds all earlier readings.",
 ["inputs", "schedules", "fault_sequences"], "every pair of underlying clock values, every synchronization offset, every value another thread may install concurrently",
 "Tests cannot make the system clock step backwards.",
 ["core/clock.c"], [("lf_clock_gettime", "core/clock.c")])

prop("P18", "Hash sets, hash maps and vectors behave as sets, maps and sequences",
 "A hash map returns for each key the last value put, a hash set contains exactly the items added and not removed, with duplicates rejected, whatever collisions, deletions or growth occurred and iteration visits each member once; a vector returns pushed elements in last-in-first-out order, and indexed access returns the element stored at that position or nothing if none was.",
 ["histories", "inputs"], "every sequence of operations, key values and hash collisions",
 "Tests add and look up a few keys or random ones; particular collision and deletion patterns are not enumerated.",
 ["core/utils/hashset/hashset.c", "core/utils/hashset/hashset_itr.c", "include/core/utils/impl/hashmap.h", "core/utils/vector.c"],
 [("hashset_add/remove/is_member", "core/utils/hashset/hashset.c"), ("hashmap_put/get", "include/core/utils/impl/hashmap.h"), ("vector_push/pop/at", "core/utils/vector.c")])

prop("P19", "Multiport iteration visits exactly the present channels in ascending order",
 "Iterating over a multiport's present channels yields each channel that has a value at the current tag exactly once, in increasing index order, and then ends, whether or not the number of writes exceeded the sparse record and in whatever order the channels were written.",
 ["inputs", "histories"], "every multiport width, set of present channels and order in which they were written",
 "No test covers sparse multiport reading.",
 ["core/port.c", "include/core/port.h", "core/reactor_common.c"],
 [("_lf_multiport_iterator_impl, _lf_multiport_iterator_next_impl", "core/port.c"), ("_lf_set_present", "core/reactor_common.c")])

prop("P20", "Modes switch atomically and suspended events resume correctly",
 "At the end of a tag every requested mode transition takes effect at once: exactly one mode per modal reactor is current, a mode counts as active exactly when it and all enclosing modes are current, reactions of inactive modes are not triggered, and entering an enclosing mode by reset resets every nested mode. "
 "Events of a mode being left are suspended and removed from the queue; re-entering by history resumes each with its remaining delay, and by reset discards them (timers restart).",
 ["histories", "inputs", "configurations"], "every hierarchy of modes, set of requested transitions, and queue content",
 "No test uses modes.",
 ["core/modal_models/modes.c"],
 [("_lf_process_mode_changes", "core/modal_models/modes.c"), ("_lf_mode_is_active, _lf_add_suspended_event, _lf_remove_suspended_event", "core/modal_models/modes.c")])

prop("P21", "Federates honour grants and port knowledge monotonically",
 "A federate's recorded grant never decreases and a final grant is never downgraded to a provisional one at the same tag; what it knows about an input port only moves forward, and it executes a level only when every input port that could still deliver at the current tag is known or a final grant covers the tag. "
 "What it reports to the coordinator is truthful: never an earlier completion than already reported, a next-event promise that its own physical actions cannot undercut, port absence claimed only up to the greatest tag it can still guarantee, and messages stamped with the current tag plus the connection's delay and never after the stop tag.",
 ["histories", "inputs"], "every grant and message tag, every port status record, delay, physical time and current tag",
 "No federated test runs in the unit suite.",
 ["core/federated/federate.c"],
 [("handle_tag_advance_grant, handle_provisional_tag_advance_grant", "core/federated/federate.c"), ("update_last_known_status_on_input_port(s), lf_update_max_level", "core/federated/federate.c"), ("bounded_NET, lf_latest_tag_confirmed, lf_send_tagged_message, lf_send_port_absent_to_federate", "core/federated/federate.c")])

prop("P22", "A federate's stop proposal and stop tag are never in any enclave's past",
 "On a stop request from the federation a federate answers at most once, with a tag that is at least the requested one and strictly later than the current tag of each of its enclaves, and holds every enclave at or before the tag it offered until the decision; when the decision arrives each enclave's stop tag is the granted one or, if that has already passed, its next microstep, and the hold is released. "
 "A locally requested stop likewise proposes a tag beyond every enclave's current tag and is sent once.",
 ["histories", "inputs", "configurations"], "every number of enclaves, every combination of current tags and requested tag, and every order of local and remote stop requests",
 "No test has more than one enclave or a coordinator.",
 ["core/federated/federate.c", "core/threaded/reactor_threaded.c"],
 [("handle_stop_request_message, handle_stop_granted_message, lf_send_stop_request_to_rti", "core/federated/federate.c"), ("lf_request_stop", "core/threaded/reactor_threaded.c")])

prop("P23", "Clock synchronization applies exactly the estimated, filtered offset",
 "Each completed exchange estimates the clock error as half the round-trip delay minus the observed difference; initial synchronization applies it fully, run-time synchronization applies it attenuated and only if the probe spacing error is within the guard band; the clock offset changes only at the end of a full window, by exactly the accumulated average, after which the window starts afresh.",
 ["inputs", "histories"], "every timestamp quadruple, probe spacing and position within the window",
 "No test covers clock synchronization.",
 ["core/federated/clock-sync.c"],
 [("handle_T1_clock_sync_message, handle_T4_clock_sync_message", "core/federated/clock-sync.c")])

prop("P24", "Enclaves sharing a process are coordinated by the same safe grant rules",
 "For enclaves coordinated inside one process, a request to advance returns only a tag that was granted under the same rule as for federates (never one that an upstream enclave can still undercut), grants recorded for an enclave are monotone, progress reports update only that enclave and re-evaluate its downstream enclaves, and a delayed hand-over between enclaves bounds the receiver's next event by its tag.",
 ["histories", "inputs", "configurations"], "every enclave topology and state",
 "No test uses more than one enclave.",
 ["core/federated/RTI/rti_local.c", "core/federated/RTI/rti_common.c"],
 [("rti_next_event_tag_locked, rti_logical_tag_complete_locked, rti_update_other_net_locked", "core/federated/RTI/rti_local.c"), ("notify_tag_advance_grant, notify_provisional_tag_advance_grant", "core/federated/RTI/rti_local.c")])

prop("P25", "A watchdog fires its handler only if it was left running past its deadline",
 "A started watchdog that is neither stopped nor restarted invokes its handler exactly once after its deadline has passed; stopping it or restarting it before that prevents the earlier expiration, and after termination it never fires.",
 ["schedules", "histories"], "every expiration value, clock reading and every change other threads make while the watchdog's lock is released",
 "Timing races cannot be provoked by unit tests; none uses watchdogs.",
 ["core/threaded/watchdog.c"],
 [("watchdog_thread_main, lf_watchdog_start, lf_watchdog_stop", "core/threaded/watchdog.c")])

prop("P26", "Locks are released on every path and shared state is touched only while held",
 "Each entry point of the coordinator and of the runtime that takes a lock releases it on every return path, never releases one it does not hold, waits on a condition only with the lock held exactly once, and performs its updates of the shared coordination state, and its sends of grants, stop announcements and forwarded messages, while holding the lock that guards them.",
 ["inputs", "fault_sequences", "histories"], "every message content, federation state and I/O failure, i.e. every sequential path through each entry point",
 "Error paths (disconnects, malformed requests, late messages) are never run by tests.",
 ["core/federated/RTI/rti_remote.c", "core/federated/federate.c", "core/threaded/reactor_threaded.c"],
 [("handlers taking rti_mutex", "core/federated/RTI/rti_remote.c"), ("handlers taking env->mutex / lf_outbound_socket_mutex", "core/federated/federate.c")])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P))
