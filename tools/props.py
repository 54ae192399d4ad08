"""The property catalogue. `python3 tools/gen_meta.py` writes properties.jsonl and MANIFEST.json from it."""

def P(id, title, statement, over, qtext, tests, files, mech, na=None, tech=None, note=None, state=(), observe=()):
    return dict(id=id, title=title, statement=statement, over=over, qtext=qtext, tests=tests, files=files,
                mech=mech, na=na, tech=tech, note=note, state=list(state), observe=list(observe))

AI = "path-partitioned abstract interpretation of MIR (rustc driver)"

PROPS = [
# ---------------------------------------------------------------- simulated time values
P("T01", "Simulated times are totally ordered with infinity on top",
  "Comparing two simulated times always gives one consistent total order: finite times compare by tick count, an infinite time is greater than every finite one, and all infinite times are equal to each other whatever tick count they carry. Equality, <, <=, >, >=, min and max all agree with that order.",
  ["inputs"], "all pairs of times (finite or infinite, any tick counts)",
  "The unit tests compare five hand-picked pairs; the order is used for every scheduling decision and must hold for all 2^130 pairs.",
  ["src/datastructures/time.rs"], [("Time::cmp / PartialEq::eq / PartialOrd / Ord", "src/datastructures/time.rs")],
  tech=AI + ": decision table of the comparison functions over the finite set of done-flag and tick orderings",
  note="Complete: the functions touch ticks only through comparisons, so the finite table over (done, done, <,=,>) covers all values. Trusts rustc's MIR and core's derived min/max."),
P("T02", "Time arithmetic adds ticks, keeps infinity, never wraps below zero",
  "Adding to a simulated time adds exactly the given number of ticks, and the sum is infinite exactly when an operand is infinite; the in-place forms give the same result as the operators. Subtracting more ticks than a time holds stops with a panic instead of wrapping, and otherwise subtracts exactly that many ticks and keeps infinity.",
  ["inputs"], "all times and all increments",
  "One unit test adds 42 to 0 and 1 to 1; nothing tests infinite operands, Time+Time, += or subtraction.",
  ["src/datastructures/time.rs"], [("Add<u64>, Add<Time>, Sub<u64>, AddAssign<u64>, AddAssign<Time>", "src/datastructures/time.rs")],
  tech=AI + ": value-numbered results of the operator impls",
  note="Decides the result terms of each operator. Overflow above u64::MAX is left to Rust's overflow checks."),
# ---------------------------------------------------------------- clocks
P("K01", "A context's clock never runs backwards",
  "The clock of a context never decreases and, once infinite, stays infinite: advancing to a later time moves the clock exactly there, advancing to an earlier or equal time leaves it unchanged, and incrementing adds exactly the given cycles. No other operation of the library changes a clock.",
  ["histories", "inputs"], "all sequences of clock operations with all arguments",
  "Tests observe only final data of a few runs; no test looks at a clock after an out-of-order advance.",
  ["src/datastructures/time.rs", "src/view/basic.rs"], [("AtomicTime::try_advance / incr_cycles / set_infinite", "src/datastructures/time.rs"), ("TimeManager::advance / incr_cycles", "src/view/basic.rs")],
  tech=AI + " plus who-may-write census of the clock atomics",
  note="Every write to the clock atomics in the crate is classified and its guard checked on every path; the single-writer assumption (only the owning context calls its manager) is taken from the API."),
P("K02", "Every clock change wakes exactly the waiters that are due",
  "Whenever a context's clock changes, including when it finishes, every thread waiting for a time the clock has reached is woken before the operation returns, and no waiter that is not yet due is forgotten. A thread that starts waiting while the clock moves is never missed: it enrols under the same lock the waker takes and looks at the clock again before sleeping.",
  ["schedules"], "all interleavings of one clock owner and any number of waiters",
  "A lost wakeup needs a particular interleaving of two threads; the tests run each program once on whatever schedule the host picks.",
  ["src/view/basic.rs"], [("TimeManager::scan_and_write_signals", "src/view/basic.rs"), ("BasicContextView::wait_until", "src/view/basic.rs")],
  tech=AI + ": must-follow (clock write then locked scan), lock-scope and wake-condition rules",
  note="Decides the lock/recheck/enrol/park protocol on every path; correctness of parking_lot and thread park/unpark is trusted."),
P("K03", "Waiting on a clock returns only once the clock has reached the time",
  "Waiting until a time through any view returns only a time that is at least the requested one and that the viewed clock has really reached. For a view over several children this means every child has reached it, the earliest child time is reported, and the current time of such a view is the earliest of its children. The view of a context made of others covers every one of them.",
  ["schedules", "inputs"], "all wait targets, all interleavings, all nestings of views",
  "Tests never call the views directly and never wait on a composite view with children at different times.",
  ["src/view/basic.rs", "src/view/parent.rs", "src/view/mod.rs"], [("BasicContextView::wait_until", "src/view/basic.rs"), ("ParentView", "src/view/parent.rs")],
  tech=AI + ": lower-bound facts on every returned value",
  note="Relies on K01 (clocks are monotone)."),
P("K04", "Seeing another context's time also shows what it did before",
  "When a context observes through a view or a wait that another context has reached a time, everything that context did before reaching it is visible to the observer. Clock updates are therefore published with release semantics and every cross-context read that is relied on has acquire semantics.",
  ["schedules"], "all interleavings under the Rust memory model",
  "Weak-memory reorderings do not show on the x86 test host at all.",
  ["src/datastructures/time.rs", "src/view/basic.rs"], [("AtomicTime::load / load_relaxed / UPDATE_ORDERING", "src/datastructures/time.rs")],
  tech="census of every access to the clock atomics with its resolved memory ordering and caller context (MIR)",
  note="Decides the orderings used; the happens-before conclusion is the standard release/acquire argument."),
P("K05", "A context that ends releases its channels and then its waiters",
  "However a context ends - returning, failing, panicking or being dropped - its clock becomes infinite so nobody waits on it forever, and its channel endpoints are closed before that clock is released. A context wrapper that is cleaned up early behaves the same way, and a context made of others cleans each of them up as soon as that one has ended.",
  ["histories", "fault_sequences"], "all ways a context can end, all contexts built with the context attribute",
  "Tests end contexts by normal return only; the closing order matters only if a peer looks between the two steps.",
  ["src/view/basic.rs", "src/context/proxy.rs", "dam-macros/src/lib.rs"], [("Drop for TimeManager", "src/view/basic.rs"), ("context attribute appends the clock as last field", "dam-macros/src/lib.rs"), ("ProxyContext::cleanup", "src/context/proxy.rs")],
  tech=AI + " of the drop impl plus field-order (drop-glue) census of every context type",
  note="Drop order of struct fields is Rust's declaration order; contexts written by hand without the attribute are out of scope."),
# ---------------------------------------------------------------- channels
P("C01", "An element arrives no earlier than send time plus channel latency",
  "Every element put on a channel carries a timestamp of at least the sender's clock at the moment of sending - after any stall for space - plus the channel's send latency. An element already stamped later keeps its own stamp, and no element is stamped later than the larger of the two.",
  ["inputs", "histories", "configurations"], "all elements, latencies, capacities, channel flavours and stall histories",
  "Tests check delivered data only and use unit latency; no test reads a delivered timestamp.",
  ["src/channel/sender/mod.rs", "src/channel/mod.rs"], [("SenderCommon::enqueue", "src/channel/sender/mod.rs"), ("ChannelElement::update_time", "src/channel/mod.rs")],
  tech=AI + ": order facts on the stamp handed to the queue, per channel flavour",
  note="Decided on every path of enqueue for every flavour; the clock read must follow the stall."),
P("C02", "Channels deliver every element exactly once, in order, unchanged",
  "Each successful enqueue puts exactly the given data once on the channel, and a failed one puts nothing there. Each dequeue takes exactly one element - the one a preceding peek showed, otherwise the next one - while peeking never removes, repeats or overwrites an element.",
  ["histories", "inputs"], "all sequences of enqueue, peek, peek_next and dequeue in every channel flavour",
  "Tests use one alternation of enqueue and dequeue; mixed peek/peek_next/dequeue sequences are covered only by one skipped random test.",
  ["src/channel/receiver/mod.rs", "src/channel/receiver/acyclic.rs", "src/channel/receiver/cyclic.rs", "src/channel/sender/mod.rs"], [("head slot of ReceiverData", "src/channel/receiver/mod.rs"), ("dequeue", "src/channel/receiver/acyclic.rs"), ("dequeue", "src/channel/receiver/cyclic.rs")],
  tech=AI + ": typestate of the look-ahead slot and linear flow of the element, per flavour",
  note="FIFO order of the underlying crossbeam queue is trusted."),
P("C03", "Receiving an element brings the receiver's clock up to it",
  "After dequeue or peek_next returns an element, the receiving context's clock is at least the element's timestamp, in every channel flavour and whatever was peeked before. Plain peeking never moves a clock.",
  ["histories", "configurations"], "all receive sequences, with and without flavour inference",
  "Tests never read the receiver's clock after receiving, and never peek before peek_next.",
  ["src/channel/receiver/acyclic.rs", "src/channel/receiver/cyclic.rs"], [("advance on receive", "src/channel/receiver/acyclic.rs"), ("advance on receive", "src/channel/receiver/cyclic.rs")],
  tech=AI + ": order facts on the clock at every successful return, sibling flavours compared",
  note="A genuine violation (acyclic peek_next after peek) was found and repaired."),
P("C04", "A bounded channel never holds more than its capacity",
  "A sender on a bounded channel proceeds only when fewer than `capacity` elements are unacknowledged; otherwise it stalls until an acknowledgement and its clock moves to that acknowledgement's time. Each acknowledgement frees one slot exactly once and each send takes exactly one, so waiting for space any number of times neither consumes nor creates space.",
  ["histories", "schedules", "configurations"], "all interleavings of waits, sends and acknowledgements, all capacities and flavours",
  "The tests move at most a few hundred elements through default-flavour channels and never wait for space without sending.",
  ["src/channel/sender/bounded.rs", "src/channel/sender/mod.rs"], [("BoundedProvider::wait_until_available / register_send", "src/channel/sender/bounded.rs"), ("BoundedCyclicSender::update_srd", "src/channel/sender/bounded.rs")],
  tech=AI + ": credit-balance and guard rules on every path of waiting and sending, per flavour",
  note="A genuine violation (acyclic wait consumed an acknowledgement without freeing the slot) was found and repaired. Capacity 0 is outside the rule."),
P("C05", "Every receive on a bounded channel returns exactly one timed credit",
  "Removing an element from a bounded channel acknowledges it exactly once, stamped with the later of the element's time and the receiver's clock plus the channel's response latency. Peeking, failed receives and unbounded channels acknowledge nothing.",
  ["histories", "configurations"], "all receive histories, latencies and flavours",
  "Acknowledgement times are never observed by a test; a lost or doubled one shows only once a channel fills.",
  ["src/channel/receiver/mod.rs", "src/channel/receiver/acyclic.rs", "src/channel/receiver/cyclic.rs"], [("Responsive::register_recv", "src/channel/receiver/mod.rs")],
  tech=AI + ": exactly-once and stamp rules on every receive path, per flavour",
  note="Decided for every flavour and return path."),
P("C06", "Reporting nothing available is a proof, not a guess",
  "A peek reports that nothing arrives up to a time only if the sender's clock has been seen at or past that time and the channel was found empty afterwards. A receive operation that reports the channel closed does so only when the channel is disconnected or the sender's clock is infinite, and with nothing left to deliver.",
  ["schedules", "histories"], "all interleavings of a sender and a peeking receiver",
  "The race window (sender enqueues between poll and clock read) is never hit deliberately by a test.",
  ["src/channel/receiver/mod.rs", "src/channel/receiver/cyclic.rs"], [("ReceiverCommon::peek / try_update_head", "src/channel/receiver/mod.rs")],
  tech=AI + ": must-precede rule (synchronise, then poll) for every reported nothing/closed",
  note="With C01 (latency >= 1) and K04 this yields the documented meaning of PeekResult::Nothing."),
P("C07", "Dropping an endpoint closes the channel for its peer",
  "When a sender or a receiver is dropped, its side of the channel is really released even while the program still holds the channel: a receiver then drains what was sent and sees closed, and a sender gets a closed error rather than blocking forever. A send that fails, or a wait that can never succeed, is reported as an error and never as success.",
  ["histories", "fault_sequences"], "all orders in which endpoints are dropped",
  "Only one test ends a channel early and it accepts any failure.",
  ["src/channel/mod.rs", "src/channel/sender/mod.rs", "src/channel/sender/bounded.rs"], [("Drop for Sender / Receiver", "src/channel/mod.rs"), ("error mapping", "src/channel/sender/mod.rs")],
  tech=AI + " of the drop impls and of every failing path of enqueue/wait/receive",
  note="Relies on crossbeam's disconnect semantics."),
P("C08", "Endpoints cannot be used or rewired at the wrong stage",
  "Sending, waiting or receiving on an endpoint before initialisation panics instead of doing anything. Attaching a context to an endpoint after initialisation panics, and before initialisation records exactly that context's identity and clock for that side of that channel.",
  ["histories"], "all orders of attach, initialise and use",
  "No test uses an endpoint at the wrong stage.",
  ["src/channel/mod.rs", "src/channel/sender/uninitialized.rs", "src/channel/receiver/uninitialized.rs", "src/channel/channel_spec.rs"], [("attach_sender / attach_receiver", "src/channel/mod.rs"), ("Uninitialized* panics", "src/channel/sender/uninitialized.rs")],
  tech=AI + ": typestate of the endpoint slot across all flavours",
  note="Flavour states without a live queue are recognised by their type, not by name."),
P("C09", "Channels are built with the capacity and latencies asked for",
  "A channel built by the program builder has exactly the requested capacity (or none), send latency and response latency, with one cycle as the default for both latencies. A zero latency in either direction is rejected.",
  ["inputs", "configurations"], "all capacities and latencies through every builder method",
  "Tests use only default latencies.",
  ["src/channel/channel_spec.rs", "src/simulation/building.rs"], [("ChannelSpec::new", "src/channel/channel_spec.rs"), ("ProgramBuilder::bounded / bounded_with_latency / unbounded / unbounded_with_latency / void", "src/simulation/building.rs")],
  tech=AI + ": provenance of each configuration value from builder argument to channel state",
  note="Also decides that swapping the two latencies anywhere on the way is a violation."),
P("C10", "Both ends of a channel are wired to the same queues and flavour",
  "When a program is initialised, each channel's sender and receiver are connected to the two ends of one data queue and, if bounded, one acknowledgement queue, both of the same kind (cyclic or acyclic) and with the channel's own parameters. The queues are large enough that capacity accounting, not the queue, is what limits the sender.",
  ["configurations"], "all capacities and flavours, with and without the unbounded-channels feature",
  "Tests cover three of the five wirings at one capacity each.",
  ["src/channel/handle.rs"], [("ChannelData::set_flavor", "src/channel/handle.rs")],
  tech=AI + ": endpoint provenance for every flavour, in two feature configurations",
  note="Also run with the unbounded-channels feature, which the test suite never builds."),
P("C11", "Converting channel adapters change only the data type",
  "Each operation on a converting adapter performs exactly one corresponding operation on the underlying channel, converts the data, and passes timestamps, nothing-until times, closed results and errors through unchanged. Converting an element never changes its timestamp, and raising an element's time never lowers it.",
  ["inputs"], "all operations, results and convertible types",
  "No test uses the adapters.",
  ["src/channel/adapters.rs", "src/channel/mod.rs"], [("RecvAdapter / SendAdapter", "src/channel/adapters.rs"), ("ChannelElement::convert / try_convert / update_time", "src/channel/mod.rs")],
  tech=AI + ": delegation and field provenance on every path",
  note="The user's conversion itself is opaque."),
P("C12", "A channel has one sender and one receiver, and nobody can duplicate them",
  "Safe code outside the library cannot duplicate a channel endpoint, reach the state behind it, or choose its kind. The only way to obtain endpoints is the program builder, which hands out each endpoint once.",
  ["programs"], "all safe client programs",
  "A test cannot show that a program does not compile, nor that no other constructor exists.",
  ["src/channel/mod.rs", "src/channel/handle.rs", "src/simulation/building.rs"], [("no Clone on Sender/Receiver, crate-private state", "src/channel/mod.rs")],
  tech="type-level witnesses (compile-fail programs with compiling twins) plus a constructor census on MIR",
  note="Sharing one endpoint by reference between threads is not ruled out by the types and is not claimed."),
P("C13", "A void channel swallows everything without side effects",
  "Sending to or waiting on a void channel always succeeds immediately, delivers nothing and leaves the sender's clock alone.",
  ["inputs", "histories"], "all sends on void channels",
  "No test builds a void channel.",
  ["src/channel/sender/void.rs", "src/simulation/building.rs"], [("VoidSender", "src/channel/sender/void.rs")],
  tech=AI + ": effect-freeness of the void flavour", note="Effect census over every path."),
P("C14", "Event queries rank and combine channel events correctly",
  "An event that is ready at a time ranks at that time, one known not to happen up to a time ranks one cycle later, and a closed source ranks last. Waiting for all of several sources takes the latest, waiting for any takes the earliest, an empty set counts as closed, and a channel is reported ready, nothing or closed exactly as its peek says.",
  ["inputs"], "all combinations of events",
  "One skipped test covers single-channel queries only.",
  ["src/channel/utils.rs"], [("EventTime::key / Ord, EventAll, EventAny, Peekable for Receiver", "src/channel/utils.rs")],
  tech=AI + ": decision table of the ranking and reductions", note="Complete over the finite set of event shapes."),
# ---------------------------------------------------------------- simulation
P("S01", "Initialisation rejects every program with an unconnected channel",
  "Initialising a program succeeds only if every channel has a sender, every non-void channel also has a receiver, and every context they name is part of the program; otherwise it fails with the error that names the cause. No channel is set up and no context initialised before these checks have passed.",
  ["programs"], "all program graphs",
  "Every test program is well-formed; no test expects an initialisation error.",
  ["src/simulation/programdata.rs", "src/simulation/building.rs"], [("ProgramData::check", "src/simulation/programdata.rs"), ("ProgramBuilder::initialize", "src/simulation/building.rs")],
  tech=AI + ": all-elements loop coverage and must-precede rules", note="Decides per-edge checks on every path and that loops cover every edge."),
P("S02", "Every channel is set up, and only proven acyclic ones as acyclic",
  "A successful initialisation sets up every channel exactly once: void channels as void, and every other channel as cyclic unless flavour inference is on and the channel lies on no cycle of the connection graph. Every context is initialised exactly once, after all channels are set up.",
  ["programs", "configurations"], "all program graphs, inference on and off",
  "Tests run two-node graphs without cycles; treating a cyclic channel as acyclic only shows as a deadlock.",
  ["src/simulation/building.rs"], [("ProgramBuilder::initialize", "src/simulation/building.rs")],
  tech=AI + ": guard of each flavour assignment and loop coverage", note="Tarjan's algorithm in petgraph is trusted."),
P("S03", "The connection graph contains every dependency between channels",
  "With flavour inference, the graph used to find cycles links each channel from its sender and to its receiver, or for contexts that declare their own connections exactly as declared. The memory unit declares every dependency between its channels, for any number of readers and writers.",
  ["programs"], "all program graphs and all numbers of memory ports",
  "The only test with explicit connections has one reader and one writer and does not run inference.",
  ["src/simulation/building.rs", "src/templates/pmu.rs"], [("edge graph construction", "src/simulation/building.rs"), ("PMU::edge_connections", "src/templates/pmu.rs")],
  tech=AI + ": loop coverage and accumulate-not-overwrite rules", note="A genuine violation (only the last reader/writer was declared, and cross-port dependencies not at all) was found and repaired."),
P("S04", "Running a program runs every context once and accounts for each",
  "Running a program executes every context exactly once, each on its own thread of control, and returns only after all have finished; a context made of others does the same with each of those. Each context that returns success contributes its summary and each that returns an error contributes a failure naming that context, never both and never neither; the run counts as passed exactly when there are no failures.",
  ["programs", "fault_sequences"], "all programs and all outcomes of their contexts",
  "One test checks that some failure is reported; none checks that all are, or that successes are.",
  ["src/simulation/initialized.rs", "src/simulation/executed.rs"], [("Initialized::run", "src/simulation/initialized.rs"), ("Executed::passed", "src/simulation/executed.rs")],
  tech=AI + ": exactly-one-outcome rule on every path of the spawned body, loop coverage of spawning", note="A context whose fallible entry point itself panics aborts the whole run; that is outside the statement."),
P("S05", "A panic in a context's plain run becomes a reported failure",
  "For a context that implements only the plain run method, a panic inside it is caught and reported as an error by the fallible entry point, and success is reported only if the method returned normally. Each of the library's own one-shot contexts refuses a second execution with an error.",
  ["fault_sequences"], "all panics, all repeated executions",
  "No test makes a plain run method panic or runs a context twice.",
  ["src/context/mod.rs", "src/utility_contexts"], [("Context::run_falliable", "src/context/mod.rs"), ("iterator.take()", "src/utility_contexts/generator_context.rs")],
  tech=AI + ": result mapping of the catch, typestate of the one-shot slot", note="Assumes unwinding panics."),
P("S06", "Elapsed cycles is the maximum over every context and its children",
  "The elapsed time of a run is the largest time of any context that finished, counting all nested child contexts, and a composite context reports all of its children. Cleaning up a context early keeps the summary it would have reported.",
  ["programs"], "all programs with any nesting",
  "Tests print the value without checking it.",
  ["src/simulation/executed.rs", "src/context/summary.rs", "src/context/proxy.rs", "src/templates/pmu.rs"], [("Executed::elapsed_cycles", "src/simulation/executed.rs"), ("ContextSummary::max_time", "src/context/summary.rs"), ("PMU::summarize", "src/templates/pmu.rs")],
  tech=AI + ": reduction coverage", note="Decides which values enter the maximum."),
P("S07", "Identifiers are unique",
  "No two contexts and no two channels created in one process ever get the same identifier, even when created concurrently. Each context attribute-generated type reports its own stored identifier, its own type name and its own clock.",
  ["schedules", "histories"], "all concurrent creations",
  "Tests create a handful of contexts from one thread.",
  ["src/datastructures/identifier.rs", "src/channel/channel_id.rs", "dam-macros/src/lib.rs"], [("atomic counters", "src/datastructures/identifier.rs"), ("context attribute", "dam-macros/src/lib.rs")],
  tech=AI + " of the constructors plus a construction census", note="Wrap-around after 2^64 creations is ignored."),
# ---------------------------------------------------------------- memories and templates
P("M01", "A datastore read returns the last write at or before the read time",
  "Reading an address at a time returns the value of the latest write to that address stamped at or before that time, however many later writes have already been recorded. If there is none, the default value is returned when that behaviour is enabled and the read panics otherwise.",
  ["histories", "inputs"], "all write histories and read times",
  "Tests read each address once, long after its only write.",
  ["src/templates/datastore.rs"], [("Datastore::read", "src/templates/datastore.rs")],
  tech=AI + ": index/predicate relation of the history lookup", note="A genuine violation (a read before the first write returned the future value) was found and repaired."),
P("M02", "Datastore writes stay in bounds, in order, and are never lost",
  "A write at an address appends exactly that value and time to that address's history, and a write not later than the last one to that address panics. An address beyond the capacity wraps modulo the capacity when that behaviour is enabled and panics otherwise, the same way for reads and writes.",
  ["inputs", "histories"], "all addresses, capacities, behaviours and histories",
  "Tests stay inside the capacity with wrapping off.",
  ["src/templates/datastore.rs"], [("Datastore::write / safe_addr", "src/templates/datastore.rs")],
  tech=AI + ": guard and provenance rules on every access path", note="Complete for the two functions."),
P("M03", "A memory-unit read sees every write up to its own cycle",
  "Before the memory unit reads at a cycle it has waited until the write side has moved past that cycle, so the value returned does not depend on host scheduling. A write is acknowledged only after it has been recorded, at the cycle it was recorded.",
  ["schedules"], "all interleavings of the read and write pipelines",
  "The race between the two pipeline threads inside one cycle is not controlled by any test.",
  ["src/templates/pmu.rs"], [("ReadPipeline::await_writer", "src/templates/pmu.rs"), ("WritePipeline::run", "src/templates/pmu.rs")],
  tech=AI + ": must-precede rule with clock lower bound", note="A genuine violation (the read waited only until the writer reached, not passed, the cycle) was found and repaired."),
P("M04", "Memory pipelines serve one whole request per event and drain to closure",
  "Each request taken by a memory unit or DRAM bank consumes one element from every request channel of that port, produces exactly one response (or one per word for a burst read) on the same port, and takes time (a DRAM bank: a request slot) before the next. A read's answer is what the memory holds at the requested address, a write records the data received with it. A pipeline always serves a port with the earliest event, never moves past that event while idle, and stops only when nothing more can arrive on any port.",
  ["histories"], "all request mixes over any number of ports",
  "Tests drive one reader and up to four writers with one request each.",
  ["src/templates/pmu.rs", "src/templates/dram.rs"], [("ReadPipeline::run / WritePipeline::run", "src/templates/pmu.rs"), ("DRAM::run", "src/templates/dram.rs")],
  tech=AI + ": per-iteration token balance and event coverage", note="Clause decided: balance per iteration, port selection, termination condition."),
P("M05", "DRAM accesses respect latency, bandwidth and ordering",
  "A DRAM access starts at the later of the current time plus the configured latency and the end of the previous transfer; reads and writes both take the transferred bits divided by the bandwidth; acknowledgements and data leave no earlier than the access ends. No more than the configured number of requests is outstanding.",
  ["inputs", "histories"], "all request sequences and configurations",
  "The test checks data only, never a time.",
  ["src/templates/dram.rs"], [("DRAM::run", "src/templates/dram.rs")],
  tech=AI + ": order facts and value provenance of every timestamp", note="A genuine violation (writes ignored the bandwidth) was found and repaired."),
P("M06", "A processing pipeline passes each input set through all stages in order",
  "For every set of inputs the processing unit runs each stage once, in order, from the previous stage's registers to the next, forwards all registers through unfilled stages, and emits once, stamped with the current cycle plus the pipeline depth. A stage changes only its listed output and forwarded registers. The provided ingress takes nothing before every input channel has its next element.",
  ["inputs", "configurations"], "all pipeline configurations and inputs",
  "One test runs a single three-stage configuration.",
  ["src/templates/pcu.rs", "src/templates/ops.rs"], [("PCU::run / PipelineStage::run", "src/templates/pcu.rs")],
  tech=AI + ": register-file provenance per stage", note="Arithmetic of user element types is opaque; the basic ALU operations are checked to apply their operator to their operands in order."),
# ---------------------------------------------------------------- utility contexts
P("U01", "Sources emit every element once, in order, at the right cycle",
  "The generator sends each element of its iterator exactly once and in order, one per cycle; the trace source sends each in order and not before the cycle the trace asks for, for every valid trace including one starting at cycle zero. A send that fails ends the context with an error.",
  ["inputs", "fault_sequences"], "all iterators, traces and channel closures",
  "Tests use plain ranges and never close the channel early.",
  ["src/utility_contexts/generator_context.rs", "src/utility_contexts/trace_context.rs"], [("GeneratorContext::run_falliable", "src/utility_contexts/generator_context.rs"), ("TraceContext::run_falliable", "src/utility_contexts/trace_context.rs")],
  tech=AI + ": loop-iteration balance and error propagation", note="A genuine violation (a trace element at cycle 0 panicked) was found and repaired."),
P("U02", "Checkers succeed only if every expected element was received and matched",
  "A checker reports success only after it received, for every element of its reference in order, an element that equals it (or that the user's approximate test accepts with the expected value first). A mismatch or a channel that closes too early never ends in success.",
  ["inputs", "fault_sequences"], "all reference sequences and received streams",
  "Most tests end in a checker but hardly any checks that a checker can fail.",
  ["src/utility_contexts/checker_context.rs", "src/utility_contexts/approx_checker_context.rs"], [("CheckerContext::run_falliable", "src/utility_contexts/checker_context.rs"), ("ApproxCheckerContext::run_falliable", "src/utility_contexts/approx_checker_context.rs")],
  tech=AI + ": guard of every success path", note="Elements beyond the reference are not examined; that is not claimed."),
P("U03", "A broadcast copies every element to every target at the same time",
  "The broadcast context forwards each received element, unchanged, exactly once to every registered target in arrival order, with the same timestamp for all, after waiting until every target has space. It ends successfully only when its input closes, and with an error if a target closes first.",
  ["inputs", "histories", "fault_sequences"], "all inputs, target counts and closures",
  "One test broadcasts to equal, always-draining targets.",
  ["src/utility_contexts/broadcast_context.rs"], [("BroadcastContext::run_falliable", "src/utility_contexts/broadcast_context.rs")],
  tech=AI + ": per-iteration coverage and ordering of waits and sends", note="Decided over all paths of one iteration from an arbitrary state."),
P("U04", "Sinks consume until closed and function contexts run their function once",
  "The consumer and the printer take elements one per cycle until the channel closes and only then end successfully. The function context runs the given function exactly once with its own clock.",
  ["histories"], "all input streams",
  "Tests never look at how a sink ends.",
  ["src/utility_contexts/consumer_context.rs", "src/utility_contexts/function_context.rs"], [("ConsumerContext / PrinterContext::run", "src/utility_contexts/consumer_context.rs"), ("FunctionContext::run_falliable", "src/utility_contexts/function_context.rs")],
  tech=AI + ": loop exit conditions and per-iteration balance", note="Complete for the three contexts."),
P("U05", "Library contexts attach every endpoint they own to themselves",
  "Every channel endpoint handed to one of the library's contexts is attached to that context (or to the pipeline inside it that uses it) exactly once, on the right side, before it can be used, and every operation on it uses that same context's clock.",
  ["programs"], "all library contexts and all ways to add ports",
  "A missing attach shows only if the test happens to add that kind of port.",
  ["src/utility_contexts", "src/templates"], [("constructors and add_* methods", "src/templates/pmu.rs")],
  tech=AI + ": attach-exactly-once provenance and clock-argument provenance at every channel call", note="Contexts enumerated from the impls of the context trait."),
# ---------------------------------------------------------------- logging
P("L01", "Logging honours its filter and never runs disabled callbacks",
  "An event is logged exactly when a logger is installed for the current thread of control and its filter enables that event's type, and then exactly once. A logging callback runs only in that case, and with no logger installed logging succeeds silently.",
  ["configurations", "inputs"], "all filters, event types and logger states",
  "No test installs a logger.",
  ["src/logging/log_functions.rs", "src/logging/mod.rs"], [("log_event / log_event_cb", "src/logging/log_functions.rs"), ("LogFilter::enabled", "src/logging/mod.rs")],
  tech=AI + ": guard of every emission", note="Run with the logging feature on; with it off the functions are checked to be no-ops."),
P("L02", "Each log entry describes its own event, context and cycle",
  "A log entry carries the identity of the context that logged it, the current cycle of that context's clock, the declared name of the event type and the serialised event itself; failures to convert or send are returned as errors. Clock changes update the cycle recorded by later entries, and child contexts of a composite log under their own identity.",
  ["histories"], "all events and clock histories",
  "No test reads a log entry.",
  ["src/logging/log_interface.rs", "src/view/basic.rs", "src/simulation/initialized.rs", "src/templates/pmu.rs"], [("LogInterface::log / update_ticks", "src/logging/log_interface.rs")],
  tech=AI + ": field provenance of the entry", note="BSON serialisation is trusted."),
P("L03", "Every event type is registered under its own name",
  "The name under which an event type is logged and filtered is registered in the list of known events, and a filter is rejected exactly when it names an unknown event.",
  ["programs", "configurations"], "all event types and filters",
  "No test compares the registry with the event types.",
  ["src/logging/mod.rs", "src/logging/registry.rs", "dam-macros/src/lib.rs", "src/view/basic.rs"], [("METRICS distributed slice", "src/logging/registry.rs"), ("event attribute", "dam-macros/src/lib.rs"), ("LogFilter::check", "src/logging/mod.rs")],
  tech="census of event-type impls against registry statics (MIR constants) and " + AI, note="linkme's collection of the statics is trusted."),
P("L04", "The logger gets every entry and the run waits for it without hanging",
  "A run with logging gives every context a logger with its own identity and filter, closes its own end of the log queue before waiting for the log writer, and waits for the writer before returning. The writer stores every entry it received, including those that arrive just before the queue closes.",
  ["schedules", "fault_sequences"], "all programs with logging enabled",
  "Logging needs a database server and is not exercised by the tests.",
  ["src/simulation/initialized.rs", "src/logging/mongo_logger.rs"], [("Initialized::run", "src/simulation/initialized.rs"), ("MongoLogger::spawn", "src/logging/mongo_logger.rs")],
  tech=AI + ": must-precede (close before join) and linear flow of entries", note="The database driver is trusted."),
# ---------------------------------------------------------------- types and visualisation
P("D01", "Element sizes are the true widths in bits",
  "Every built-in element type reports its width in bits (one for booleans, the machine width for pointer-sized integers, zero for unit), a pair the sum of its parts, an array its element count times the element width, and an unevaluated value the width of the type it stands for.",
  ["inputs", "configurations"], "all supported types and array shapes",
  "Tests check i32, a pair of ints and 2x2 arrays.",
  ["src/types/scalar.rs", "src/types/tensor.rs", "src/types/unevaluated.rs", "src/types/mod.rs"], [("StaticallySized::SIZE table", "src/types/scalar.rs")],
  tech="compile-time assertion witnesses over every impl plus provenance of the generic impls (MIR)", note="The witness crate fails to build if a width is wrong; the census fails if an impl appears that has no witness."),
P("D02", "Index conversion never truncates",
  "Converting an element to an index yields exactly its value or panics, never a truncated one. Operations on unevaluated values yield unevaluated values, comparing them for equality or inspecting them panics, and ordering them gives no order.",
  ["inputs"], "all index types and values",
  "Tests use u16 indices.",
  ["src/types/mod.rs", "src/types/unevaluated.rs"], [("IndexLike::to_usize", "src/types/mod.rs"), ("Unevaluated ops", "src/types/unevaluated.rs")],
  tech=AI + ": conversion provenance and cast census", note="Blanket implementations only."),
P("D03", "The graph drawing shows every context and every connected channel",
  "The drawing of an initialised or executed program contains one node for every context (once executed: every context that reported a summary) labelled with its name and identity, nested children inside their parent, and one edge per two-ended channel from its sender's node to its receiver's node, labelled with that channel's identity and showing its capacity and latencies. An executed program's nodes show that node's elapsed time.",
  ["programs"], "all program graphs",
  "Tests print the drawing without checking it.",
  ["src/simulation/dot.rs", "src/simulation/initialized.rs", "src/simulation/executed.rs"], [("DotConvertibleHelper", "src/simulation/dot.rs")],
  tech=AI + ": loop coverage and provenance of endpoints and attributes", note="Void channels are not drawn by the current code and are not claimed. Compiled with the dot feature."),
P("L05", "Logging observes a run without changing it",
  "What a run does does not depend on whether an event could be logged, nor on which logger a context has, except that failing to log may panic; and logging an event does not advance a clock, move elements through channels, block, wake or yield a context.",
  ["schedules", "fault_sequences", "configurations"], "all programs, filters and log failures",
  "No test installs a logger or makes logging fail.",
  ["src/channel/mod.rs", "src/view/basic.rs", "src/templates/pmu.rs", "src/logging"], [("log_event results", "src/channel/mod.rs"), ("logger hand-over", "src/templates/pmu.rs"), ("log_event_cb", "src/logging/log_functions.rs")],
  tech="interprocedural information flow with control dependence, and an effect analysis of everything logging runs (MIR)", note="Serialisers and callbacks of user code, and the time logging takes on the host, are not covered."),
# ---------------------------------------------------------------- builds
P("B01", "Build options do not change what is simulated or how the library is called",
  "Building with or without graph drawing, logging, unbounded queues or the cycle-like feature changes no clock, element, order of operations or panic of a simulation, and no signature or bound of what clients call in both builds: logging only adds log entries, unbounded queues only lift the limits of the underlying queues (not the simulated capacity), and the cycle-like feature only adds yields to the host scheduler. Without logging the logging functions do nothing and succeed.",
  ["configurations", "inputs"], "all programs, pairwise over the build options",
  "The tests are built with one set of features.",
  ["src/datastructures/time.rs", "src/channel/handle.rs", "src/logging/log_functions.rs", "Cargo.toml"], [("cfg(feature = cycle-like)", "src/datastructures/time.rs"), ("cfg(feature = unbounded-channels)", "src/channel/handle.rs"), ("cfg(feature = logging)", "src/logging/log_functions.rs")],
  tech="differential comparison of the resolved programs of the builds (MIR), with " + AI + " of the functions that differ", note="The coroutine backend cannot be built here (N04). What unbounded queues change about blocking is that a full host queue never occurs."),
# ---------------------------------------------------------------- declined
P("N01", "Simulation results do not depend on host scheduling",
  "Running the same deterministic program twice gives the same delivered elements with the same timestamps and the same final clocks, whatever the host scheduler does.",
  ["schedules", "programs"], "all programs and schedules", "Tests run one schedule.",
  ["src/channel", "src/view"], [("conservative synchronisation", "src/channel/receiver/mod.rs")],
  na="Whole-history equality over all interleavings is a runtime relation no static rule bounds; its structural clauses (stamps, proofs of nothing, clock monotonicity, read/write ordering) are claimed as C01-C06, K01-K04 and M03."),
P("N02", "Programs with enough buffering never deadlock",
  "A program whose modelled system makes progress also makes progress in simulation, with any channel flavours.",
  ["schedules", "programs"], "all programs", "Tests contain no adversarial graphs.",
  ["src/channel", "src/simulation"], [("flavour selection", "src/simulation/building.rs")],
  na="Progress of arbitrary user graphs depends on run-time token counts and buffer sizes; the local causes visible in code (lost wakeups, lost credits, unreleased endpoints, wrong flavour, log join order) are claimed as K02, C04, C05, C07, S02, S03 and L04."),
P("N03", "Flavour inference never changes simulated results",
  "A program gives the same simulated results with and without flavour inference.",
  ["programs", "configurations"], "all programs", "Only two-node programs are run both ways.",
  ["src/channel/sender/bounded.rs", "src/channel/receiver"], [("acyclic and cyclic siblings", "src/channel/receiver/acyclic.rs")],
  na="Equality of two whole executions quantifies over run-time values; each obligation both flavours share is claimed per flavour in C01-C07."),
P("N04", "The coroutine backend behaves like the thread backend",
  "The library behaves the same when built on coroutines instead of operating-system threads.",
  ["configurations"], "both backends", "The tests here build the thread backend only.",
  ["src/shim/coroutines.rs"], [("shim module", "src/shim/mod.rs")],
  na="The backend needs a git dependency that is not available offline, so its resolved program cannot be obtained and nothing about it can be decided."),
P("N05", "Entries accepted by the log writer are durable in the database",
  "Every log entry handed to the database logger can later be read back from the configured collection.",
  ["fault_sequences"], "all runs with database logging", "No database server is available to the tests.",
  ["src/logging/mongo_logger.rs"], [("insert_many with journal off, unordered", "src/logging/mongo_logger.rs")],
  na="Durability is decided by the database server and network at run time; the code-shape clause (every received entry is submitted before shutdown) is claimed in L04."),
]
