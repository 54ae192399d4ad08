"""What each rule leaves out (for DESIGN.md)."""
LIMITS = {
 "T02": "additions that exceed 2^64 ticks are outside the claim.",
 "K01": "the operations inspected are all functions from which a write of a clock atomic is reachable. `TimeManager` is `Clone` and finishes the clock when dropped, so dropping a clone ends the original's clock: that is a finishing operation in the sense of the property, and no library code clones a manager.",
 "K02": "sequential consistency between the lock and the clock store is argued from the lock order in the rule, not model checked; `std::thread::park/unpark` and `parking_lot` are trusted.",
 "K03": "liveness (that the awaited time is ever reached) is not claimed.",
 "K04": "release/acquire orderings are decided syntactically per access (with fences); consume-like reasoning is not accepted.",
 "K05": "leaking (mem::forget) of a manager by user code is outside the claim. TLS destructors are trusted.",
 "C01": "the latency is at least 1 (C09 shows it).",
 "C02": "crossbeam queues are trusted to be FIFO and lossless.",
 "C04": "capacity 0 is excluded (rejected elsewhere); an acknowledgement is taken to arrive at least one cycle after its element (C05 shows it).",
 "C05": "as C01 for the response latency.",
 "C06": "CheckBackAt(infinity) is treated as closed, as the code does.",
 "C09": "the stamps use C01 and C05.",
 "C10": "capacities of the data queue are compared symbolically with the channel's capacity.",
 "C11": "identities of the adapters' endpoints are decided here and used by S01-S03. User-supplied conversions are opaque.",
 "C12": "`&Sender` is `Sync`, so sharing by reference is possible and not claimed; a public field of a private type is not reported.",
 "C14": "which of several equal events wins, and the maximum of Ready(t) against Nothing(t-1), are not decided.",
 "S01": "petgraph is trusted; identities of channel handles are those of C11; panics of initialize are not claimed.",
 "S02": "petgraph's strongly connected components are trusted. Self loops are components of one vertex and are treated as the code treats them.",
 "S03": "the memory unit's declaration must be pairs of complete sets; a finer but correct declaration per port pair would be reported.",
 "S04": "SegQueue and the thread scope are trusted; the coroutine backend cannot be built here; contexts overriding `run_falliable` that panic abort the run (S05 covers the default).",
 "S06": "`run`/`cleanup` of the proxy wrappers are checked one level at a time (induction on nesting).",
 "S07": "`Identifier.id` is public and `Deserialize` can duplicate an identity; counter wrap-around after 2^64 allocations is ignored.",
 "M01": "relies on the histories being strictly ordered (M02). A panic of user code while a history is locked poisons it and is excluded.",
 "M02": "locks are assumed not to be poisoned; 'capacity' means the number of histories that `new` made.",
 "M03": "relies on C03, C05 and K03; panics of the datastore are excluded.",
 "M04": "a stop that becomes a panic is only recognised when the closed choice is the last loop before the panic.",
 "M05": "a bank configured with 0 slots is excluded; bank configuration fields are private and taken as given; the cast to an integer number of cycles rounds as in the code.",
 "M06": "user operations are opaque; commutative built-in operators may have their operands swapped.",
 "U01": "user iterators are opaque.",
 "U02": "user comparison functions are opaque.",
 "U03": "the targets' common time stamp is compared as a term.",
 "L01": "a callback that itself logs would deadlock on the thread's logger, and a panic inside it poisons the logger; both are outside the claim.",
 "L02": "wall-clock timestamps of entries are not claimed; the initial logger starts at cycle 0 even if `init` has moved the clock.",
 "L03": "only event types of the crate; a user's `#[derive(LogEvent)]` shares the same macro implementation.",
 "L04": "insert errors of the database and panics of the writer are not claimed (N05), nor sender clones leaked inside user threads; writers that poll with try_iter are not modelled.",
 "D01": "widths are evaluated for the 64-bit target; a newly added type is counted but not decided.",
 "D02": "blanket implementations; user overrides outside the crate are not seen.",
 "D03": "void channels are not drawn by the current code and not claimed; recursion is cut at the recursive call, whose function is then decided on an arbitrary context (induction on nesting). Positions of panics (a context reported as a child by nobody) are not claimed.",
 "L05": "what user serialisers, callbacks and log processors do is theirs; answers are followed through locals, calls, returns and closure captures, anything kept elsewhere is reported. Code that cannot return (it panics) may do anything.",
 "B01": "a function that differs must have the same outcomes when run abstractly; what it calls that is identical in both builds counts as one step that is given the same arguments and finds the same memory. In-place reads of shared cells between two such steps are assumed not to depend on their order. Options are compared one at a time (thorough: also all of them together).",
}
