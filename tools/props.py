"""The properties, in prose, and how each is decided."""
PROPS = []
NOTE = ("Seeded search, not exhaustive: the listed number of simulated runs "
        "per tier over random plans, scheduling policies and faults.  ")


def P(id, title, statement, over, text, why, files, mech, oracle=None,
      note="", observe=(), na=None):
    PROPS.append(dict(
        id=id, title=title, statement=statement, over=over, text=text,
        why=why, files=["src/uvm/" + f for f in files],
        mech=[(n, "src/uvm/" + w) for n, w in mech],
        oracle=oracle, note=NOTE + note, observe=list(observe), na=na))


SCHED = ("every legal ordering of runnable tasks at every instant, every "
         "placement of delays")

# ---------------------------------------------------------------- TLM FIFOs
P("T01", "TLM FIFOs deliver every item exactly once and in put order",
  "Items leave a TLM FIFO in exactly the order in which they were put, each "
  "exactly once; no completed put is lost, nothing is delivered that nobody "
  "put, and every removal (and put) is announced once, with the right item, "
  "on the FIFO's analysis ports.  Peeking returns the head without removing "
  "it.  This holds with any number of producers and consumers, bounded, "
  "unbounded and analysis FIFOs, and when blocked tasks are killed.",
  ["schedules", "histories", "fault_sequences"],
  SCHED + ", any number of producers/consumers/peekers, any FIFO size, tasks "
  "killed while blocked",
  "The existing tests drive a FIFO with one producer and one consumer in one "
  "fixed order; races between several blocked getters, peekers and killed "
  "tasks never occur in them.",
  ["tlm1/uvm_tlm_fifos.py", "tlm1/uvm_tlm_fifo_base.py",
   "base/uvm_mailbox.py"],
  [("UVMTLMFIFO put/get/peek", "tlm1/uvm_tlm_fifos.py"),
   ("UVMMailbox", "base/uvm_mailbox.py")],
  "history check against a FIFO queue model",
  "FIFO sizes 0-5, up to 4 producers, 4 consumers and a peeker, up to 14 "
  "(quick) / 40 (thorough) operations each, up to 3 task kills.")
P("T02", "TLM FIFO status and non-blocking calls tell the truth",
  "At every instant the FIFO's fill level, empty/full and can_put/can_get/"
  "can_peek answers agree with its real content, a non-blocking put succeeds "
  "exactly when there is room, and a non-blocking get or peek succeeds "
  "exactly when an item is there and then returns the head.  A bounded FIFO "
  "never holds more than its size.",
  ["schedules", "histories", "fault_sequences"],
  SCHED + ", observed after every operation of every actor",
  "Tests look at the status calls at a few fixed points of one sequential "
  "script, never between the operations of several blocked tasks.",
  ["tlm1/uvm_tlm_fifos.py", "tlm1/uvm_tlm_fifo_base.py",
   "base/uvm_mailbox.py"],
  [("used/is_empty/is_full/can_*", "tlm1/uvm_tlm_fifos.py"),
   ("try_put/try_get/try_peek/num", "base/uvm_mailbox.py")],
  "refinement against a queue model after every operation",
  "can_get() is not judged after a blocked getter was killed (the UVM "
  "reference counts a killed getter as pending too).")
P("T03", "No task stays blocked on a TLM FIFO whose condition holds",
  "Once a run has settled, no getter or peeker is blocked while its FIFO "
  "holds an item, and no putter is blocked while it has room; killing other "
  "blocked tasks does not change that.",
  ["schedules", "fault_sequences"],
  SCHED + ", kills of blocked tasks at any time",
  "Lost wake-ups need two or more tasks blocked on one FIFO and a particular "
  "wake order; tests have one task per side.",
  ["tlm1/uvm_tlm_fifos.py", "base/uvm_mailbox.py"],
  [("mailbox wake-up events", "base/uvm_mailbox.py")],
  "progress check at quiescence (liveness in bounded virtual time)")
P("T04", "Flushing a TLM FIFO removes and reports exactly what it held",
  "A flush at any moment removes every item the FIFO holds, reports each of "
  "them once and in order on the get analysis port, and never touches items "
  "put later; producers blocked on a full FIFO then make progress.",
  ["schedules", "histories", "fault_sequences"],
  SCHED + ", flushes at arbitrary instants between other operations",
  "Tests flush only an idle FIFO.",
  ["tlm1/uvm_tlm_fifos.py", "base/uvm_mailbox.py"],
  [("flush", "tlm1/uvm_tlm_fifos.py")],
  "history check against a queue model",
  "When getters are blocked at the flush the emptiness clause is not judged.")

# ------------------------------------------------------------------- events
P("E01", "An event wakes exactly the tasks that wait for it, with its data",
  "A trigger that no callback vetoes wakes every task waiting for the event "
  "at that moment and no later waiter, hands over the trigger data and time, "
  "and leaves the event on until it is reset; persistent waits also see a "
  "trigger of the same time slot, and on/off waits return exactly when the "
  "state is on/off.  Callbacks run in order around every trigger and a veto "
  "leaves state and waiters untouched.  Waiter counts follow waits and "
  "cancellations.",
  ["schedules", "histories", "fault_sequences"],
  SCHED + ", several waiters and triggerers, resets with and without wake-up, "
  "killed waiters",
  "Tests have one waiter and one trigger at different times; same-time "
  "orders, vetoes and repeated waits are not reached.",
  ["base/uvm_event.py", "base/uvm_pool.py"],
  [("trigger/wait_*", "base/uvm_event.py")],
  "refinement against an event model")
P("E02", "A barrier releases all its waiters together, at its threshold",
  "Nobody passes a barrier before as many processes wait as its threshold "
  "says, and when they do all of them are released at that same instant; "
  "auto-reset, lowering the threshold, cancelling and resetting change the "
  "number of waiters exactly as documented.",
  ["schedules", "histories", "fault_sequences"],
  SCHED + ", thresholds changed while tasks wait, killed waiters",
  "The tests never block several tasks on one barrier.",
  ["base/uvm_barrier.py", "base/uvm_event.py", "base/uvm_pool.py"],
  [("wait_for/m_trigger", "base/uvm_barrier.py")],
  "refinement against a barrier model")
P("E03", "A semaphore never hands out more keys than it has",
  "The keys handed out by a semaphore never exceed the keys it was given "
  "plus those returned, try_get succeeds exactly when enough keys are there, "
  "and no task stays blocked while the keys it waits for are available.",
  ["schedules", "histories", "fault_sequences"],
  SCHED + ", multi-key requests, killed waiters",
  "Tests have two tasks and one key.",
  ["base/sv.py"],
  [("semaphore", "base/sv.py")],
  "conservation and progress checks on the recorded history")
P("E04", "Fork/join helpers return exactly when their branches say so",
  "Joining all branches returns when the last one has finished and not "
  "before, joining any returns when the first has, and a non-blocking fork "
  "returns at once; every branch runs exactly once and to its end whatever "
  "the schedule.",
  ["schedules"],
  SCHED + ", branches of any length including zero, nested forks",
  "Tests fork two branches with distinct delays.",
  ["base/sv.py"],
  [("fork_join/fork_join_any/fork_join_none", "base/sv.py")],
  "history check of branch start/end against the join time")

# --------------------------------------------------------------- objections
P("O01", "Objection counts equal what was raised minus dropped, up the tree",
  "At every settled instant each object's own objection count equals its "
  "raises minus its drops, and its total equals its own count plus what its "
  "descendants contribute; raised, dropped and all-dropped events and "
  "callbacks follow these counts.  Dropping more than was raised is reported "
  "as fatal, and clearing resets every count and cancels every drain.",
  ["schedules", "histories", "fault_sequences"],
  SCHED + ", any component tree, sequences and plain objects objecting, "
  "clear() and over-drops at any moment",
  "The repository's objection tests use one component and one or two raises; "
  "concurrent raises and drops at several tree levels, batches of drops in "
  "one time slot and clear() while drains run are never tried.",
  ["base/uvm_objection.py"],
  [("raise/drop propagation, scheduled drains", "base/uvm_objection.py"),
   ("clear, wait_for", "base/uvm_objection.py")],
  "executable reference model of the counts compared after every time step",
  "Trees of up to 7 components, 5 concurrent actors.")
P("O02", "Objection drain times and all-dropped are honoured",
  "When an object's total falls to zero, its drop reaches its parent only "
  "after its drain time and its all-dropped callback; raising again during "
  "the drain cancels it, and otherwise the drop is propagated at exactly that "
  "time.  Tasks waiting for all-dropped wake when, and only when, the top has "
  "drained.",
  ["schedules", "histories", "clock", "fault_sequences"],
  SCHED + ", any drain times and callback durations, re-raises at any moment "
  "of the drain, clear() during drains",
  "Tests use one drain time on one component; overlapping drains of several "
  "objects, expiries that coincide and re-raises at the instant of expiry "
  "need particular schedules.",
  ["base/uvm_objection.py"],
  [("m_execute_scheduled_forks, m_forked_drain", "base/uvm_objection.py"),
   ("wait_for", "base/uvm_objection.py")],
  "timed reference model; exact virtual time of every drain",
  "A drop and re-raise within one time slot may be coalesced, as in the UVM "
  "reference; the model allows both outcomes there.")

P("O03", "Watching an objection reports its real counts and changes nothing",
  "With tracing on, every raise and drop is reported with the object's real "
  "own and total counts, and behaves exactly as with tracing off.  The printed "
  "table lists each object that holds the objection up exactly once, in "
  "hierarchical order, with its real counts.  A copy keeps the counts of the "
  "moment it was taken, and using an objection leaves no extra objections "
  "behind.",
  ["schedules", "histories", "fault_sequences"],
  SCHED + ", tracing switched at any moment, tables and copies taken in any "
  "state, drains and clear() included",
  "Tracing is used when a simulation hangs, in states no test sets up; the "
  "counts it must print depend on the whole history.",
  ["base/uvm_objection.py"],
  [("m_report, trace_mode", "base/uvm_objection.py"),
   ("m_display_objections, do_copy", "base/uvm_objection.py")],
  "the counts of the objection itself (O01's model runs alongside) and the "
  "messages printed",
  "Text other than names and counts is not compared.")

# ------------------------------------------------------------------- phases
P("P01", "Phases run in order, once per component, and obey objections",
  "Every component sees every phase started, executed and ended exactly once "
  "and in the standard order; no phase begins for any component before the "
  "previous one ended for all, build runs parents before children and other "
  "function phases children before parents.  A run phase ends only when no "
  "objection is raised or draining, and then it does end; ready-to-end "
  "callbacks may prolong it.",
  ["schedules", "histories", "fault_sequences"],
  SCHED + ", any component tree and script of objections, callbacks that walk "
  "the hierarchy while it is being traversed",
  "A unit test runs one fixed bench under one scheduling order; phase "
  "hand-over races (lost done events, objections raised in the slot a phase "
  "ends) depend on task order.",
  ["base/uvm_phase.py", "base/uvm_root.py", "base/uvm_component.py",
   "base/uvm_objection.py", "base/uvm_topdown_phase.py",
   "base/uvm_bottomup_phase.py", "base/uvm_task_phase.py",
   "base/uvm_common_phases.py"],
  [("execute_phase, wait_for_self_and_siblings_to_drop",
    "base/uvm_phase.py"), ("m_run_phases", "base/uvm_phase.py"),
   ("run_test", "base/uvm_root.py")],
  "phase-graph reference plus objection model; bounded-time progress",
  "An objection raised and dropped within one time slot need not delay the "
  "phase; tasks still running when their phase ends are not judged.")
P("P02", "Run-time phases and domains stay in step with the common phases",
  "The twelve run-time phases run one after the other beside the run phase, "
  "each ended by its own objections; the run phase and the last run-time "
  "phase end together, and components moved to another domain go through that "
  "domain's phases.  Waiting for a phase state returns as soon as the state "
  "holds and never earlier.",
  ["schedules", "histories"],
  SCHED + ", any split of components over two domains, any objection script "
  "per phase, waiters on any phase state",
  "The tests have one domain and no waiter; sibling synchronisation and state "
  "waits depend on the order of events within a time slot.",
  ["base/uvm_phase.py", "base/uvm_domain.py", "base/uvm_runtime_phases.py"],
  [("wait_for_self_and_siblings_to_drop, wait_for_state",
    "base/uvm_phase.py"), ("domains and schedules", "base/uvm_domain.py"),
   ("set_domain", "base/uvm_component.py")],
  "phase-graph reference plus objection model",
  "A phase waiting for a sibling looks at its own objections only "
  "afterwards, as in the UVM reference; those windows are not judged.")
P("P03", "Custom phases run exactly where they were inserted",
  "A user-defined phase added before, after or alongside a standard phase "
  "runs once for every component at that place of the order, whether it is a "
  "function or a task phase and whichever schedule it is added to, and the "
  "other phases keep their order around it.",
  ["schedules", "histories", "inputs"],
  SCHED + ", any one or two custom phases at any legal place of either "
  "schedule, together with extra domains",
  "The tests insert one custom phase at one place, if any.",
  ["base/uvm_phase.py", "base/uvm_domain.py"],
  [("add, find", "base/uvm_phase.py"),
   ("get_predecessors_for_successors", "base/uvm_phase.py")],
  "reference phase graph built independently by the checker")

# ---------------------------------------------------------------- sequences
SEQF = ["seq/uvm_sequencer_base.py", "seq/uvm_sequencer_param_base.py",
        "seq/uvm_sequencer.py", "seq/uvm_sequence_base.py",
        "seq/uvm_sequence.py", "tlm1/uvm_sqr_connections.py"]
P("S01", "Every sequence item reaches its driver once and is then completed",
  "Each item a sequence sends is delivered exactly once, unchanged, to the "
  "driver of the sequencer it was sent to, after it was granted and with at "
  "most one item per sequencer in progress; items of one sequence arrive in "
  "the order it sent them.  The sequence continues at the very moment the "
  "driver completes that item, and no sequence or driver stays blocked while "
  "there is work for it, whichever of the driver's calls are used.",
  ["schedules", "histories", "fault_sequences"],
  SCHED + ", any tree of nested, parallel and restarted sequences on several "
  "sequencers, every driver style, stalled drivers",
  "The unit tests call sequencer functions directly; the examples have one "
  "sequence and one driver in a fixed order and need an HDL simulator.",
  SEQF + ["comps/uvm_driver.py"],
  [("get_next_item/try_next_item/get/peek/item_done",
    "seq/uvm_sequencer.py"),
   ("wait_for_grant, wait_for_item_done", "seq/uvm_sequencer_base.py"),
   ("start_item/finish_item", "seq/uvm_sequence_base.py")],
  "history check (exactly once, order, grant exclusivity) and progress at "
  "quiescence",
  "Locking, grabbing and killing sequences are not ported in this code base "
  "and are not exercised.")
P("S02", "Sequencer arbitration grants in order and only relevant sequences",
  "With FIFO arbitration the sequencer grants the oldest request among the "
  "sequences that are relevant; a sequence that is not relevant gets no "
  "grant and does not hold up the others, and it is served as soon as it "
  "becomes relevant again.  Random arbitration picks only relevant requests "
  "and every request is granted in the end while the driver keeps asking.",
  ["schedules", "histories", "fault_sequences"],
  SCHED + ", relevance that comes and goes at any moment, several competing "
  "sequences",
  "No test makes a sequence irrelevant or lets several sequences compete.",
  SEQF,
  [("m_choose_next_request, m_wait_for_available_sequence",
    "seq/uvm_sequencer_base.py")],
  "reference arbiter over the recorded requests; progress at quiescence",
  "Only FIFO and random arbitration are ported.")
P("S03", "Responses go to the sequence that sent the request, once",
  "A response the driver sends, by whichever of the three ways, reaches the "
  "sequence that sent the request, exactly once and in order, or its response "
  "handler; asking for one transaction's response gives that one.  A task "
  "waiting for a response that is there never stays blocked.  Responses "
  "beyond the queue depth are dropped with an error and those for a sequence "
  "that has ended disturb nobody.",
  ["schedules", "histories", "fault_sequences"],
  SCHED + ", late, out-of-order, missing and excess responses, several tasks "
  "of a sequence waiting at once, abandoned waits, restarted sequences",
  "The tests put one response by hand and get it back.",
  SEQF + ["seq/uvm_sequencer_analysis_fifo.py"],
  [("put_response, analysis_write", "seq/uvm_sequencer_param_base.py"),
   ("get_base_response, put_base_response", "seq/uvm_sequence_base.py")],
  "queue model per sequence compared at every delivery")
P("S04", "A sequence runs its life cycle in order and can hold its phase",
  "Starting a sequence runs pre-start, pre-body, body, post-body and "
  "post-start once each and in that order, with the parent's hooks around "
  "each item and child, and returns only when all of that is over.  A "
  "sequence with automatic phase objection keeps its phase alive from start "
  "to end, and the phase ends at once when the last such sequence has ended.",
  ["schedules", "histories", "fault_sequences"],
  SCHED + ", any nesting of parallel sequences with and without automatic "
  "objections, stalled drivers",
  "The tests start one sequence with no phase; whether a phase outlives its "
  "sequences depends on how objection and phase tasks interleave.",
  ["seq/uvm_sequence_base.py", "base/uvm_phase.py",
   "base/uvm_objection.py", "dap/uvm_get_to_lock_dap.py"],
  [("start, start_process", "seq/uvm_sequence_base.py"),
   ("m_safe_raise_starting_phase", "seq/uvm_sequence_base.py")],
  "life-cycle reference; exact end time of the phase")

# -------------------------------------------------------------- TLM wiring
PORTF = ["base/uvm_port_base.py", "tlm1/uvm_ports.py", "tlm1/uvm_exports.py",
         "tlm1/uvm_imps.py", "tlm1/uvm_tlm_imps.py",
         "macros/uvm_tlm_defines.py"]
P("T05", "An analysis write reaches every subscriber exactly once, in order",
  "A write to an analysis port or export reaches every implementation the "
  "wiring leads to, each exactly once whatever the number of paths to it, "
  "before the write returns, and in the order of the writes; nobody else "
  "sees it.  This holds for any network of ports and exports across the "
  "hierarchy, for concurrent writers and for subscribers that write on.",
  ["inputs", "schedules", "histories"],
  "every acyclic network over any component tree, concurrent writers in any "
  "order, re-entrant writes",
  "Tests connect one port to one or two subscribers directly.",
  ["tlm1/uvm_analysis_port.py"] + PORTF[:1],
  [("write", "tlm1/uvm_analysis_port.py"),
   ("connect, resolve_bindings, m_add_list", "base/uvm_port_base.py")],
  "reachability in the wiring graph against the recorded deliveries",
  "Up to 7 components, 9 ports and exports, 4 subscribers.")
P("T06", "A request/response channel carries both directions without mixing",
  "Every request a master puts is delivered to exactly one slave and every "
  "response to exactly one master, in put order, whichever of the channel's "
  "exports are used; each is announced once on its analysis port.  The two "
  "directions never mix, and nobody stays blocked while the item or room it "
  "waits for is there.",
  ["schedules", "histories", "fault_sequences"],
  SCHED + ", several masters and slaves, bounded and unbounded channels, "
  "stalled parties",
  "Tests construct a channel and move one item.",
  ["tlm1/uvm_tlm_req_rsp.py", "tlm1/uvm_tlm_fifos.py", "tlm1/uvm_imps.py",
   "tlm1/uvm_tlm_imps.py"],
  [("exports and their wiring", "tlm1/uvm_tlm_req_rsp.py"),
   ("master/slave implementations", "tlm1/uvm_imps.py")],
  "history check against two queue models; progress at quiescence",
  "The transport channel is not ported in this code base.")
P("T07", "A TLM call runs once, at the implementation the wiring leads to",
  "A put, get, peek or transport call through any chain of ports and exports "
  "runs exactly once, at an implementation that the wiring leads to, and hands "
  "its result back to the caller that made it, however calls of several tasks "
  "overlap.  A blocking call returns only when the implementation is done.",
  ["inputs", "schedules"],
  "every acyclic wiring of every interface kind over any component tree, "
  "overlapping blocking calls in any order",
  "Tests connect one port directly to one implementation.",
  PORTF,
  [("call forwarding", "tlm1/uvm_tlm_imps.py"),
   ("set_if, get_if, resolve_bindings", "base/uvm_port_base.py")],
  "reachability in the wiring graph against the calls observed",
  "Any of several reachable implementations is accepted if get_if(0) names "
  "it.")
P("T08", "Illegal TLM connections are reported and stop the build",
  "Each connection that is null, to itself, from an implementation, from an "
  "export to a port, or to a provider lacking part of the required interface "
  "is reported once and has no effect; after elaboration every port with too "
  "few or too many connections is reported.  With any such report the run "
  "does not start, and without one it does.",
  ["inputs", "fault_sequences"],
  "every wiring, legal or not, of every interface kind over any component "
  "tree",
  "Tests check one or two kinds of illegal connection between two ports.",
  PORTF + ["base/uvm_root.py"],
  [("connect, m_check_relationship, resolve_bindings",
    "base/uvm_port_base.py"), ("phase_started", "base/uvm_root.py")],
  "independent statement of the binding rules; exact error counts",
  "Illegal connections are the injected faults.  Cyclic wirings are not "
  "generated.")
P("T09", "TLM2 sockets carry every transaction to its target and back",
  "A transaction sent through a TLM2 socket reaches exactly the target at the "
  "end of its chain of pass-through sockets, as the same payload, phase and "
  "delay objects; backward calls reach exactly the initiator that sent it, "
  "and results, phases and timing annotations come back unchanged.  A missing "
  "delay and an illegal socket connection are reported and never deliver "
  "anything.",
  ["schedules", "histories", "fault_sequences"],
  SCHED + ", any chain of initiator, pass-through and target sockets, "
  "connected in any order, several transactions in flight",
  "The tests use the backward path only with directly connected sockets and "
  "one transaction at a time.",
  ["tlm2/uvm_tlm2_sockets.py", "tlm2/uvm_tlm2_sockets_base.py",
   "tlm2/uvm_tlm2_exports.py", "tlm2/uvm_tlm2_imps.py",
   "tlm2/uvm_tlm2_ports.py", "tlm2/uvm_tlm2_time.py",
   "base/uvm_port_base.py"],
  [("connect", "tlm2/uvm_tlm2_sockets.py"),
   ("b_transport, nb_transport_fw, nb_transport_bw",
    "tlm2/uvm_tlm2_imps.py")],
  "history of every transaction against the TLM2 base protocol",
  "Chains of up to 6 sockets, up to 4 pairs, 3 client tasks each.")
P("R01", "Register accesses become exactly the right bus transfers; the mirror follows",
  "Every register write, read, mirror or update that reports success was "
  "carried out by exactly one uninterrupted series of bus transfers with the "
  "right addresses, data, sizes and order, and nothing else reaches the bus.  "
  "After every access, whoever made it, the model's mirrored value is what the "
  "access policies make of the transferred data, and a difference from the "
  "device is reported exactly when checking was asked for and there is one.  "
  "This holds for any mixture of concurrent clients and drivers.",
  ["schedules", "histories", "inputs"],
  SCHED + ", any register layout, access policy, endianness, bus width, "
  "driver style and sequence of accesses by any number of clients",
  "Each test has one fixed layout and one client and compares final values; "
  "none looks at interleaved accesses to one register.",
  ["reg/uvm_reg.py", "reg/uvm_reg_field.py", "reg/uvm_reg_map.py",
   "reg/uvm_reg_block.py", "reg/uvm_reg_predictor.py",
   "reg/uvm_reg_adapter.py"],
  [("write, read, mirror, update, do_predict, XatomicX", "reg/uvm_reg.py"),
   ("do_bus_write, do_bus_read, Xinit_address_mapX", "reg/uvm_reg_map.py"),
   ("write (analysis)", "reg/uvm_reg_predictor.py"),
   ("do_predict, XpredictX, XupdateX", "reg/uvm_reg_field.py")],
  "bit-level device, independent address layout and mirror model; every bus "
  "word is attributed to one call",
  "Field-level write()/read() are not ported and not generated; no user "
  "front doors; up to 3 maps, 5 registers of up to 64 bits, 5 clients.")
P("R02", "A failed register access is reported to its caller and harms nobody else",
  "When a bus transfer fails or a pre-access callback vetoes an access, exactly "
  "the caller of that access gets a bad status, the rest of that access does "
  "not reach the bus, and the register is free for the next caller.  All other "
  "concurrent accesses are carried out as if nothing had happened, and checks "
  "never compare the value of a read that failed.",
  ["fault_sequences", "schedules", "histories"],
  "any sequence of bus errors, vetoes, upsets of device state and foreign bus "
  "masters at any word of any access, under any schedule",
  "The tests have no failing bus at all.",
  ["reg/uvm_reg.py", "reg/uvm_reg_map.py", "reg/uvm_reg_block.py"],
  [("do_write, do_read, mirror, XatomicX", "reg/uvm_reg.py"),
   ("do_bus_write, do_bus_read", "reg/uvm_reg_map.py"),
   ("update, mirror", "reg/uvm_reg_block.py")],
  "as R01, with every failed transfer attributed to the call it failed",
  "After a failed access the mirrored value is not judged until the model is "
  "reset (the methodology leaves it undefined).")
P("R03", "Memory accesses become exactly the right bus transfers, or none",
  "Every single or burst access to a memory of a register model is carried out "
  "as the transfers of exactly its words, each at its own address and in order, "
  "whatever other clients access meanwhile; a read returns what the device gave. "
  "An access outside the memory, through a foreign map, or otherwise illegal "
  "reaches no bus, reports an error and gets a bad status; a failed transfer or "
  "a veto ends its own access with a bad status and disturbs no other.  Each "
  "hook and callback runs once per access, before or after its transfers.",
  ["fault_sequences", "schedules", "histories", "inputs"],
  "any block tree, memory sizes and widths, bus widths, byte orders, bus "
  "protocols, concurrent clients, hooks, bus errors and vetoes",
  "The only memory test accesses one memory of one width from one process on a "
  "bus that never fails.",
  ["reg/uvm_mem.py", "reg/uvm_reg_map.py", "base/uvm_pool.py"],
  [("write, read, burst_write, burst_read, Xcheck_accessX, do_write, do_read",
    "reg/uvm_mem.py"),
   ("do_bus_write, do_bus_read, Xinit_address_mapX", "reg/uvm_reg_map.py")],
  "every transfer carries the tag of its access; address, size, data and order "
  "are compared with a layout computed independently, results with the device",
  "Backdoor accesses are not covered.  A memory's own post hook may run before "
  "or after its callbacks (the code and its documentation disagree).")
P("R04", "Register hooks run once, in order, and their changes take effect",
  "Around every access to a register, the hooks of the register and of each "
  "field and all their callbacks run exactly once: pre hooks before the first "
  "bus transfer, an element's own hook before its callbacks in the order added, "
  "post hooks after the last transfer and callbacks before the hook.  A value "
  "they change is the value written, returned or predicted; a veto stops the "
  "access before the bus, a changed status is returned, and nothing else of that "
  "register happens between the first hook and the last.",
  ["schedules", "histories", "fault_sequences"],
  "any register and field shapes, numbers of callbacks, blocking hooks, "
  "concurrent clients, bus errors, vetoes, user frontdoors and bus protocols",
  "No test adds a register callback to a register, and hooks never block.",
  ["reg/uvm_reg.py", "reg/uvm_reg_field.py", "reg/uvm_reg_cbs.py",
   "base/uvm_callback.py"],
  [("do_write, do_read, do_predict, mirror, XatomicX", "reg/uvm_reg.py"),
   ("do_predict", "reg/uvm_reg_field.py"),
   ("UVMRegCbs", "reg/uvm_reg_cbs.py")],
  "each access carries a tag with the hooks it still owes; values are tracked "
  "through every change and compared at each hook, transfer and result",
  "Whether fields or their register come first among the pre hooks is left open "
  "(the code and its documentation disagree).  After a failed transfer the "
  "mirror is not judged.")
P("R06", "Backdoor accesses act on the storage of the element, as if it were accessed",
  "A backdoor access of a register or memory location reads and deposits exactly "
  "the signals its HDL paths name for the abstraction in use -- every slice, in "
  "every copy -- or runs the user-defined backdoor to its end with its hooks and "
  "callbacks in order, and never the bus.  A register write deposits what a "
  "physical write would have left, a read also leaves its read side effects, the "
  "mirror follows and poke and peek move the value as is.  Copies that differ or "
  "a failing backdoor give a not-OK status and leave the rest usable; accesses "
  "of one register, by backdoor or bus, do not overlap.",
  ["schedules", "histories", "fault_sequences", "inputs"],
  "any shape of registers, memories, blocks, slices, copies and access policies, "
  "concurrent backdoor and front-door clients, a device changing by itself, slow "
  "and failing backdoors",
  "Only one memory with an instant user backdoor is exercised.",
  ["reg/uvm_reg.py", "reg/uvm_mem.py", "reg/uvm_reg_backdoor.py",
   "reg/uvm_reg_block.py", "reg/uvm_reg_model.py", "dpi/uvm_hdl.py"],
  [("do_write, do_read, backdoor_read_func, backdoor_write, get_full_hdl_path",
    "reg/uvm_reg.py"),
   ("poke, peek, backdoor_read_func, backdoor_write", "reg/uvm_mem.py"),
   ("do_pre_read, do_post_read, do_pre_write, do_post_write",
    "reg/uvm_reg_backdoor.py"),
   ("get_full_hdl_path", "reg/uvm_reg_block.py")],
  "device model behind the HDL access layer that knows whose signal is touched by "
  "which access; each access is judged when its post hook runs",
  "The mirror of a read-to-clear, read-to-set or write-only field after a backdoor "
  "read, and after a failed deposit, may hold either value.  The simulator object "
  "handles are replaced by a model of the device.")
P("R07", "The built-in access tests exercise every element through both doors",
  "UVMRegAccessSeq, UVMMemAccessSeq and UVMRegMemAccessSeq take each register with "
  "a writable field and each memory location that has a backdoor and is not "
  "excluded (by a resource on it or on a block above it), in every map it is in, "
  "through: write at the front door, read through the backdoor, write of the other "
  "value through the backdoor, read at the front door -- and touch nothing else.  "
  "A device that keeps to the model gives no error; each read that differs from "
  "what is due and each access that fails gives its errors.",
  ["schedules", "fault_sequences", "inputs"],
  "any model of registers, memories, blocks, one or two maps, access policies, "
  "backdoors and exclusions; stuck bits, lost writes, read errors and failing "
  "accesses at any place",
  "No test in the stable set runs the access tests with a faulty device.",
  ["reg/sequences/uvm_reg_access_seq.py", "reg/sequences/uvm_mem_access_seq.py",
   "reg/uvm_reg.py", "reg/uvm_mem.py", "reg/uvm_reg_model.py"],
  [("body, do_block", "reg/sequences/uvm_reg_access_seq.py"),
   ("body, do_block", "reg/sequences/uvm_mem_access_seq.py"),
   ("reg_test_off", "reg/uvm_reg_model.py")],
  "device model with injected hardware faults behind both doors; the accesses, "
  "values and error counts that are due are computed from what the device gave",
  "Elements of blocks nested more than one level deep are visited more than once, "
  "as in the SystemVerilog library: whole passes are demanded, not one.  After a "
  "failed access the error count is only bounded from below.")
P("R08", "Lookups, accesses and predictions follow an address map that changes",
  "Whatever sequence of moving, unmapping and mapping again of registers and "
  "moving of sub-maps happens at run time, between and during the accesses of "
  "other clients: the register found at an address, the addresses and offsets "
  "reported, the addresses put on the bus and the mirror a predictor updates are "
  "those of the layout in force; an old address leads nowhere.  An access under "
  "way goes as a whole to one layout.  A read-only and a write-only register may "
  "share an address and are told apart by the direction.",
  ["schedules", "histories", "inputs"],
  "any tree of maps, any bus width, endianness and addressing, any interleaving of "
  "changes with accesses, lookups and observed transfers",
  "No test in the stable set changes a locked map.",
  ["reg/uvm_reg_map.py", "reg/uvm_reg.py", "reg/uvm_reg_predictor.py"],
  [("m_set_reg_offset, Xinit_address_mapX", "reg/uvm_reg_map.py"),
   ("set_submap_offset, get_reg_by_offset", "reg/uvm_reg_map.py"),
   ("set_offset, get_addresses", "reg/uvm_reg.py"),
   ("write", "reg/uvm_reg_predictor.py")],
  "model of the layout; every address that ever belonged to a register is looked "
  "up after each change, and the bus traffic of every access is compared with it",
  "A register with an access under way is not unmapped.")
P("R09", "Registers behind an index and FIFO registers act as one, whoever uses them",
  "An access of a register behind an index writes the index and then transfers the "
  "data, with no other access of either in between, and reads or writes just that "
  "element; it returns the status of the transfer that failed and then leaves "
  "everything usable.  A FIFO register pushes each value written or updated once, "
  "in order, pops one per read, refuses writes when full and reads when empty, and "
  "its mirror is what the device holds.  What these registers do not support has no "
  "effect.",
  ["schedules", "histories", "fault_sequences", "inputs"],
  "any number of clients, table, FIFO and bus sizes; failing transfers, corrupted "
  "values",
  "No test in the stable set accesses such a register concurrently or over a bus "
  "that fails.",
  ["reg/uvm_reg_indirect.py", "reg/uvm_reg_fifo.py", "reg/uvm_reg.py",
   "reg/uvm_reg_item.py"],
  [("uvm_reg_indirect_ftdr_seq.body, do_predict", "reg/uvm_reg_indirect.py"),
   ("set, update, do_predict, pre_write, pre_read", "reg/uvm_reg_fifo.py"),
   ("XatomicX", "reg/uvm_reg.py"), ("do_copy", "reg/uvm_reg_item.py")],
  "device model with an index latch, a table and a FIFO; each transfer is matched "
  "with an access under way and each access with its transfers",
  "As documented, values are set and updated with no other FIFO access in between. "
  "An update whose transfer fails leaves the mirror as set.")
P("M01", "Every report is filtered, delivered and counted exactly as configured",
  "A report is delivered exactly when the verbosity configured for its "
  "reporter, severity and id allows it, once to each destination its action "
  "selects, with the right severity, id, text, time, reporter and origin, and "
  "it is counted exactly once.  A more specific setting wins over a less "
  "specific one whatever the order in which they were made; a component starts "
  "with its parent's verbosity.  Reporting never disturbs the random generator.",
  ["schedules", "histories", "fault_sequences"],
  "any interleaving of reports and configuration calls (hierarchical or not) "
  "from several processes, with closed and full log files",
  "The unit tests check single settings on a handler that nobody else uses.",
  ["base/uvm_report_server.py", "base/uvm_report_handler.py",
   "base/uvm_report_object.py", "base/uvm_report_message.py",
   "macros/uvm_message_defines.py", "base/uvm_component.py"],
  [("get_action, get_verbosity_level, get_file_handle, "
    "process_report_message", "base/uvm_report_handler.py"),
   ("execute_report_message, compose_report_message",
    "base/uvm_report_server.py"),
   ("set_report_*_hier", "base/uvm_component.py")],
  "reference model of every handler; every displayed line and log line is "
  "compared",
  "A report of an id for which some severity-id override exists does not fall "
  "back to the generic override (as in the reference implementation).")
P("M02", "Report catchers see, change and swallow exactly the right reports",
  "Each enabled catcher registered with a reporter or with all reporters is "
  "asked exactly once per report, in order, with what the catchers before it "
  "made of the report, until one swallows it; what it changes is what is "
  "delivered and counted.  Caught and demoted reports are counted.  A catcher "
  "that raises or reports itself harms no later report.",
  ["schedules", "histories", "fault_sequences"],
  "any set of catchers, added, enabled and disabled by several processes "
  "between any reports, with catchers that raise exceptions",
  "The tests have one catcher at a time and none that fails.",
  ["base/uvm_report_catcher.py", "base/uvm_callback.py",
   "base/uvm_report_server.py"],
  [("process_all_report_catchers, process_report_catcher, issue",
    "base/uvm_report_catcher.py"),
   ("process_report_message", "base/uvm_report_server.py")],
  "reference model of the catcher chain, asked/changed per report", "")
P("M03", "Exit actions and the quit count end the run exactly when they should",
  "The run ends at the first report whose action says exit or that makes the "
  "quit count reach its maximum, not earlier and not later.  Every component "
  "is then told once, children before parents, and one summary with the right "
  "counts is printed.",
  ["schedules", "histories", "fault_sequences"],
  "any interleaving of errors, fatals, changes of the quit limit, of actions "
  "and of severities (also by catchers)",
  "A unit test can end its run only once, at one point.",
  ["base/uvm_report_server.py", "base/uvm_root.py", "base/uvm_component.py",
   "base/uvm_report_catcher.py"],
  [("execute_report_message, get_summary_string",
    "base/uvm_report_server.py"), ("die", "base/uvm_root.py"),
   ("m_do_pre_abort", "base/uvm_component.py")],
  "reference model of counts, quit count and actions",
  "The end is the exception the library raises to stop the simulator.")
P("C01", "Callbacks run once, in order, for exactly the objects they were added to",
  "Executing the callbacks of an object runs each enabled callback of the "
  "requested type that was added to that object or to all objects exactly "
  "once, in registration order, and no other, whenever and in whatever order "
  "they were added.  Callbacks added or switched by another process during the "
  "execution may or may not run; all others are unaffected, and a callback "
  "that raises harms no later execution.",
  ["schedules", "histories", "fault_sequences"],
  "any interleaving of additions, mode changes and (also blocking) executions "
  "by several processes",
  "The tests add everything first and execute once.",
  ["base/uvm_callback.py", "macros/uvm_callback_defines.py"],
  [("add, m_add_tw_cbs, get_first, get_next, m_get_q",
    "base/uvm_callback.py"),
   ("uvm_do_callbacks*", "macros/uvm_callback_defines.py")],
  "reference lists per object and traversal",
  "Prepending during a traversal may repeat a callback (index based, as the "
  "reference); delete() is not ported.")
P("C02", "Configuration lookups obey hierarchy while building and recency afterwards",
  "A configuration lookup yields the value of the setting made under that "
  "name for a scope that covers the reader (and of the asked type): of those "
  "made while the testbench is built, the one made highest in the hierarchy "
  "wins, settings made later count like the top's, and among equals the most "
  "recent one wins, also when it repeats an earlier one.  A lookup that nothing "
  "matches says so and yields nothing.",
  ["schedules", "histories", "inputs"],
  "any hierarchy, set of scope patterns and order of settings and lookups in "
  "the build, connect and run phases by several processes",
  "The tests have one or two settings and one lookup.",
  ["base/uvm_config_db.py", "base/uvm_resource.py", "base/sv.py"],
  [("UVMConfigDb.set, get, exists", "base/uvm_config_db.py"),
   ("lookup_name, get_highest_precedence, set_priority_queue",
    "base/uvm_resource.py"),
   ("uvm_glob_to_re, uvm_re_match", "base/sv.py")],
  "reference model: list of settings with precedence and age",
  "Known finding: scopes match anywhere in a name.  Where that changes the "
  "answer, exactly one other answer is let through.")
P("C03", "Shared resources keep their values and wake those who wait for them",
  "A resource holds the last value written to it, except while it is "
  "read-only, when writing is reported as an error and changes nothing; "
  "lookups find the match of highest precedence, the first in the (changeable) "
  "priority order among equals.  A process waiting for a modification resumes "
  "at the next write of a different value, not earlier and not later, and each "
  "modification is announced once, also after a waiting process was killed.",
  ["schedules", "histories", "fault_sequences"],
  "any interleaving of creating, writing, locking, prioritising and waiting "
  "for resources, kills of waiting processes",
  "Nothing tests waiting, priorities or read-only resources under concurrency.",
  ["base/uvm_resource.py", "base/uvm_resource_db.py", "base/sv.py"],
  [("write, wait_modified, set_priority_name, lookup_scope, "
    "sort_by_precedence", "base/uvm_resource.py"),
   ("set, read_by_name, write_by_name", "base/uvm_resource_db.py")],
  "reference model of the resource lists and modification flags",
  "One waiter per resource at a time: with several only one is certain to "
  "see a modification, as in the reference.")
P("C04", "Components are configured with the winning settings when they are built",
  "When a component is built, every field it (or a class it is derived from) "
  "registered holds the value a configuration lookup of that name would give, "
  "or keeps its default when there is none; no other field of it or of any "
  "other component is touched, and settings made after its build never "
  "change it.",
  ["histories", "inputs"],
  "any hierarchy of components of several derived classes, any settings with "
  "any scope patterns made at any point of the build",
  "The tests configure single components with non-conflicting settings.",
  ["base/uvm_component.py", "base/uvm_object.py",
   "macros/uvm_object_defines.py", "base/uvm_resource.py"],
  [("apply_config_settings", "base/uvm_component.py"),
   ("_m_uvm_field_automation, uvm_field_utils_start",
    "macros/uvm_object_defines.py"),
   ("sort_by_precedence, lookup_scope", "base/uvm_resource.py")],
  "the configuration reference model of C02",
  "Integer, string and object fields; array fields are not ported.")
P("K01", "Stream comparators pair items in order and count matches exactly",
  "A comparator pairs the n-th expected item with the n-th actual item, "
  "whatever the interleaving, delays, losses, duplications or corruptions of "
  "the two streams, compares each pair once as soon as both are there, and "
  "announces it once.  Its counts of matches and mismatches and the errors it "
  "reports agree with the pairs, an error never stops it, and a flush only "
  "clears the counts.",
  ["schedules", "histories", "fault_sequences"],
  "any interleaving of two streams of any lengths with dropped, duplicated, "
  "swapped and corrupted items",
  "The tests feed one comparator with one equal and one unequal pair.",
  ["comps/uvm_in_order_comparator.py", "comps/uvm_algorithmic_comparator.py",
   "comps/uvm_policies.py", "comps/uvm_pair.py", "base/uvm_comparer.py"],
  [("run_phase, flush", "comps/uvm_in_order_comparator.py"),
   ("write, connect_phase", "comps/uvm_algorithmic_comparator.py"),
   ("UVMClassPair, UVMBuiltInPair", "comps/uvm_pair.py")],
  "reference: the two lists of items written",
  "Items: integers, strings, objects with field macros or do_compare, "
  "transformed objects.")
P("D01", "Transactions are recorded once, completely, at their times and linked",
  "Every transaction begun on a recording component appears as exactly one "
  "record of the requested stream, with its label, fields, begin and end times "
  "(given or current) and a link to its parent; a silent component leaves "
  "none.  A handle is unique and finds its record until that is freed, and "
  "begin, end and accept set the times and wake waiters exactly once.  Closing "
  "and reopening the database loses nothing, and a file that cannot be opened "
  "disturbs nothing but the recording.",
  ["schedules", "histories", "fault_sequences", "inputs"],
  "any interleaving of accepting, beginning, ending and nesting transactions "
  "and events of several components, with given or current times, any texts "
  "and object graphs, closes of the database, files that cannot be opened",
  "No test looks at recorded transactions.",
  ["base/uvm_component.py", "base/uvm_transaction.py", "base/uvm_recorder.py",
   "base/uvm_tr_stream.py", "base/uvm_tr_database.py", "base/uvm_links.py",
   "base/uvm_scope_stack.py", "macros/uvm_object_defines.py"],
  [("m_begin_tr, end_tr, accept_tr, record_event_tr, get_tr_stream",
    "base/uvm_component.py"),
   ("m_begin_tr, end_tr", "base/uvm_transaction.py"),
   ("close, free, get_handle, do_record_object", "base/uvm_recorder.py"),
   ("open_stream, establish_link, do_close_db", "base/uvm_tr_database.py")],
  "reference model producing the expected database, line by line",
  "Closing and freeing of whole streams is not ported.")
P("D02", "Sequences and items are recorded as the tree in which they ran",
  "A sequence run on a recording sequencer leaves one record, in the stream "
  "of its root sequence, that opens when the sequence starts, closes when it "
  "ends and is linked to the record of its parent; items recorded by a driver "
  "are linked to the sequence that sent them.  Sequences and items know their "
  "begin and end times, and the end of an item is signalled to whoever waits.",
  ["schedules", "histories"],
  "any tree of sequences, serial or parallel, restarted or on several "
  "sequencers of which some record, any driver delays",
  "No test looks at recorded sequences.",
  ["seq/uvm_sequence_base.py", "base/uvm_component.py",
   "base/uvm_transaction.py", "base/uvm_tr_database.py"],
  [("start, finish_item, get_tr_handle", "seq/uvm_sequence_base.py"),
   ("begin_child_tr, m_begin_tr", "base/uvm_component.py")],
  "reference list of records built by the sequences themselves",
  "Automatic recording of items by the sequencer is not ported.")
P("F01", "The factory creates what the overrides in force at that time ask for",
  "Every component and object requested by type or by name is of the type "
  "that the overrides set so far give its full path: the first matching "
  "instance override, else the type override, followed through chains and "
  "wildcards, whether the overrides came before or after the types were "
  "registered.  A chain that loops is reported and yields a type of the loop; "
  "an override by an unknown type and a request for one are reported and "
  "change nothing.  Printing and debugging the factory shows the overrides "
  "in force and changes nothing.",
  ["schedules", "histories", "inputs"],
  "any interleaving of registrations, overrides and creations by several "
  "processes while the hierarchy is built and while it runs",
  "Tests set one or two overrides before building.",
  ["base/uvm_factory.py", "base/uvm_registry.py", "base/uvm_component.py"],
  [("find_override_by_type, find_override_by_name, set_*_override_by_*",
    "base/uvm_factory.py"),
   ("create, set_type_override, set_inst_override", "base/uvm_registry.py"),
   ("create_component, create_object", "base/uvm_component.py")],
  "reference override table resolved by a separate path matcher",
  "")
P("S05", "Default sequences start with their phase; a kill stops just what it names",
  "The default sequence last configured for a phase of a sequencer, as a type or "
  "an instance and subject to factory overrides, is started once when that phase "
  "starts, and no sequence is started without being configured.  One that objects "
  "automatically keeps the phase going until it ends; one still running when its "
  "phase ends is killed.  Killing a sequence stops it and its children, leaves all "
  "others running, lets its sequencer go on, and returns its starter.",
  ["schedules", "histories", "fault_sequences"],
  "any configuration of default sequences, sequences nested and in parallel, "
  "driver and phase timing, sequences killed at any point",
  "No test uses a default sequence or kills a sequence; where the kill falls is a "
  "matter of scheduling.",
  ["seq/uvm_sequencer_base.py", "seq/uvm_sequence_base.py"],
  [("start_phase_sequence, stop_phase_sequence, kill_sequence",
    "seq/uvm_sequencer_base.py"),
   ("kill, m_kill, m_safe_raise_starting_phase, start",
    "seq/uvm_sequence_base.py")],
  "expected sequence per sequencer and phase from a model of the settings; "
  "who may act after which kill",
  "A kill at the instant its sequencer hands over an item is generated but the "
  "outcome for that item is left open.")

P("M04", "Command-line settings take effect as documented, each at its place and time",
  "Every documented plusarg - verbosity, timed and per-phase verbosity, actions, "
  "severities, quit count, timeout, configuration values, overrides, default "
  "sequences, test name - has the effect of the corresponding call, on exactly the "
  "components it names, from the moment it names, in command-line order.  "
  "Malformed or repeated settings are reported and change nothing else, and "
  "queries return exactly the arguments that match.",
  ["schedules", "histories", "inputs", "clock"],
  "any list of settings and other arguments, component tree, phase durations and "
  "instant of observation",
  "Tests parse a few fixed arguments; what a component reports in each phase and "
  "at each time depends on all settings together.",
  ["base/uvm_cmdline_processor.py", "base/uvm_root.py", "base/uvm_component.py"],
  [("get_arg_matches, get_arg_values, extract_args",
    "base/uvm_cmdline_processor.py"),
   ("m_do_*_settings, m_process_*, m_check_verbosity", "base/uvm_root.py"),
   ("m_set_cl_verb, m_set_cl_action, m_set_cl_sev, m_apply_verbosity_settings",
    "base/uvm_component.py")],
  "messages of every component probed in every phase and between settings, against "
  "an independent model of the command line",
  "The phase timeout itself is not ported, so only its value is checked.")

P("R05", "The built-in register and memory tests pass what conforms, report what does not",
  "A built-in reset, bit-bash or memory-walk test run on a register model "
  "visits every register and memory of every block through every map, except "
  "those excluded for that test, and leaves the device with the values it "
  "documents.  A device that behaves as modelled, however slow, raises no "
  "error; a stuck or crossed bit, a wrong reset value, a lost write or aliased "
  "memory cells that the test's accesses expose are reported, and a failed "
  "access is reported without ending the test.",
  ["schedules", "histories", "fault_sequences", "inputs"],
  "any register model of several blocks and maps, conforming and faulty "
  "devices, failing bus transfers, other traffic, bus delays and exclusions",
  "Tests run the sequences once on a conforming device.",
  ["reg/sequences/uvm_reg_hw_reset_seq.py",
   "reg/sequences/uvm_reg_bit_bash_seq.py",
   "reg/sequences/uvm_mem_walk_seq.py",
   "reg/sequences/uvm_reg_mem_built_in_seq.py", "reg/uvm_reg.py",
   "reg/uvm_mem.py"],
  [("body", "reg/sequences/uvm_reg_hw_reset_seq.py"),
   ("bash_kth_bit", "reg/sequences/uvm_reg_bit_bash_seq.py"),
   ("body", "reg/sequences/uvm_mem_walk_seq.py"),
   ("do_check, mirror", "reg/uvm_reg.py")],
  "independent model of each test over the accesses the device really saw",
  "The shared-access test is not ported.")

P("H01", "Every component has its one place in the hierarchy and is found there",
  "A component's full name is that of its parent and its own name, and it is "
  "found there, and only there, by child name, by relative and absolute lookup, "
  "by pattern search and in the printed topology, while the tree is built and "
  "while it runs.  A loop over the children meets each once, in order of "
  "creation, whatever is searched or printed meanwhile.  A second child of a "
  "name and a change of a name are reported and leave the tree as it was; a "
  "component made after the build phase is reported.",
  ["schedules", "histories", "fault_sequences", "inputs"],
  "any tree, any interleaving of lookups, searches, loops, prints and illegal "
  "changes by several processes in any phase",
  "Tests look at one or two components of a fixed small tree.",
  ["base/uvm_component.py", "base/uvm_root.py", "base/uvm_printer.py"],
  [("lookup, get_first_child, get_next_child, get_children, set_name, "
    "m_add_child, __init__", "base/uvm_component.py"),
   ("find, find_all, print_topology", "base/uvm_root.py"),
   ("print_object", "base/uvm_printer.py")],
  "reference tree kept beside the real one",
  "What a component made too late does to the tree is left open.")

P("X01", "Randomised objects meet their constraints and keep their own random stream",
  "Randomising an object gives each of its random variables a value of its "
  "domain that meets the constraints of the object and those given with the "
  "call, which hold for that call only, or reports that there is none and leaves "
  "its variables alone.  The callbacks before and after are called once each, "
  "around the randomisation of the random sub-objects; an object switched off "
  "is left alone.  The values an object draws depend on its own seed and history "
  "only, however other objects and random draws interleave.",
  ["schedules", "histories", "inputs"],
  "any interleaving of randomisations of several objects and sub-objects, "
  "inline constraints, callbacks that draw numbers and other use of the "
  "random generator",
  "Tests randomise one object in one order.",
  ["base/sv.py"],
  [("randomize, randomize_with, rand, constraint, rand_mode", "base/sv.py")],
  "enumeration of all solutions, and each object's history run again alone from "
  "the same seed",
  "Solving itself is done by a third-party library, which runs real.")

# ------------------------------------------------------- not applicable
P("N01", "Packing an object and unpacking it gives the same object",
  "Whatever fields an object packs, with whatever sizes and byte order, "
  "unpacking the bits, bytes or ints into an object of the same type gives "
  "equal fields, and as many bits are consumed as were produced.",
  ["inputs"], "any sequence of packed fields and any options",
  "Tests pack a few fixed objects.",
  ["base/uvm_packer.py"], [("pack_*, unpack_*", "base/uvm_packer.py")],
  na="a pure function of its arguments: no scheduling, time, I/O or other "
     "party that a simulator could vary; a fault cannot be injected into it")
P("N02", "Copy, clone and compare agree on the fields of an object",
  "A copy or clone of an object compares equal to it in every registered "
  "field, shares nothing the copy policy says is deep, and changing one field "
  "of either makes them differ exactly in that field.",
  ["inputs"], "any tree of objects, any field flags and comparer settings",
  "Tests compare a few fixed objects.",
  ["base/uvm_object.py", "base/uvm_comparer.py"],
  [("copy, clone, compare", "base/uvm_object.py")],
  na="pure functions over one object tree, run to completion without yielding; "
     "there is no schedule, clock or fault for the outcome to depend on")
P("N03", "Printers show every printable field of an object once",
  "A table, tree or line printer renders each field an object prints exactly "
  "once, in order, with its name, type, size and value in the radix asked for, "
  "at the depth asked for.",
  ["inputs"], "any tree of objects and any printer knobs",
  "Tests print a few fixed objects.",
  ["base/uvm_printer.py"], [("print_object, emit", "base/uvm_printer.py")],
  na="a pure rendering of one object tree; nothing concurrent, timed or "
     "external takes part")
P("N04", "Names are matched against globs and regular expressions as documented",
  "A glob or regular expression matches a name exactly when its documented "
  "meaning says so, and the spell checker proposes the nearest known names.",
  ["inputs"], "any pattern and any name",
  "Tests match a few fixed pairs.",
  ["base/uvm_globals.py", "base/uvm_spell_chkr.py"],
  [("uvm_is_match, uvm_glob_to_re", "base/uvm_globals.py")],
  na="a pure function of two strings (where matching decides which setting, "
     "override or component is found, C02, C03, F01 and H01 cover it)")
