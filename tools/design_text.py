# Per property: (how it is decided, why that reaches what the tests cannot)
T = {
"C01": ("Every handler, timer callback and subscription delivery of the workload enters and leaves a section guarded by an atomic 'inside' counter (must be 0 on entry) and writes plain, unlocked state of its actor (`plainTouch`); the race detector turns a missing happens-before edge between two executions into a report even if they did not overlap in time. Independence of actors: while one actor is parked in a handler the others must finish their work (virtual time: `settle` decides 'never' exactly).",
        "overlap needs many senders of different kinds at the same time, and visibility is only decided by a happens-before detector"),
"C02": ("Every submission carries a unique tag and a per-sender number; the handler logs what it saw. Offline check of the log: accepted => handled exactly once, rejected => never, per sender in order, body, event and header fields as sent (compared field by field).",
        "exactly-once and order are claims about all interleavings of submissions"),
"C03": ("Every call of the generated tree writes plain fields when its handler ends. When the top-level Call returns, the monitor reads them without synchronisation: a missing one is a violation, and a missing happens-before edge is a race report. Trees on one shared message and on messages derived from the context are both generated.",
        "an early return only shows with a particular relation of depth, fan-out and delays"),
"C04": ("In virtual time a Call that does not return in the time allowed leaves the bubble idle, so 'never' is exact. Oracle: which of {handler end, cancellation, deadline, call timeout} comes first in the (virtual) schedule determines success or error and the exact moment. Calls to nothing must fail with no handler run. Nodes that refuse, stay silent or answer garbage are real sockets.",
        "the outcome depends on the order of four events that a test would need wall-clock margins for"),
"C05": ("Sequences of messages whose handlers, middleware, chains, callbacks and subscriptions fail in eleven ways (panic values, runtime errors, errors, Goexit-free); a model says which messages must still be handled, in which order, and that every Call returns. A worker that dies is a violation (a panic that escaped).",
        "the failing step may be anywhere in any sequence"),
"C06": ("Every step of a generated chain appends to a log; the log and the result are compared with a reference evaluation of the chain.",
        "every combination of lengths and failing positions"),
"C07": ("Cycles of every length and addressing mode, several at once, with the self-call error expected exactly at the closing step; the entry counter of the originator's handler must stay at 1 while it waits; in virtual time a deadlock is the bubble becoming idle.",
        "a deadlock needs the exact cycle, and remote cycles need the header to survive every hop"),
"C08": ("Trees of futures completed and extended concurrently; every callback counts and records its result; a linearizability-style rule: all callbacks saw the one result whose completion could have come first; each exactly once after everything is idle.",
        "lost callbacks need a completion between two steps of Then"),
"C09": ("The moment a reentrant call returns, the messages handled while it is outstanding, and the number and content of resolutions are recorded and compared with what the callee did (model in virtual time).",
        "the callee's end, the context's end and the caller's exit may come in any order"),
"C10": ("A reference model of a timer in virtual time predicts every firing of an idle actor's timer exactly; for busy actors the at-most-once-per-period, not-after-stop and on-the-actor's-thread rules are checked on the recorded firings.",
        "stop and reset races lie within nanoseconds of an expiry; virtual time puts operations exactly on them"),
"C11": ("Accepted and handled messages are counted around the exit; nothing may be handled after the exit returned, nothing accepted may be missing, offers afterwards must fail, timers must be silent, and every exit must return (virtual idle detection).",
        "the exit has to overlap an enqueue, a drain, a timer or another exit at a particular point"),
"C12": ("Interval-based oracle: every lookup that lies completely inside a period in which the id was certainly registered (or certainly not) must say so; of concurrent registrations exactly one wins; at the end every instance but the listed one has been told to exit, and the store agrees.",
        "registration is several store commands and two maps; the windows are between them"),
"C13": ("A live-actor counter sampled at every construction and exit must never exceed the limit; a sequential model decides every refusal both ways (none above, none below), with the store compared key by key after refusals.",
        "an excess needs two nodes inside the same check-then-act window"),
"C14": ("After each step of random histories (with injected store failures) every lookup of every node is compared with the set of live actors.",
        "histories with failures in the middle of multi-key updates"),
"C15": ("A model of all weights is compared with the store after each step, and every selection with the model's minimum.",
        "conservation over arbitrary histories"),
"C16": ("The store is dumped key by key and compared with the union of what the remaining nodes registered; accepted messages must be handled; later calls must fail and reach nobody.",
        "leaving overlaps with incoming work and registrations"),
"C17": ("Every handler records its id and type; the set of admissible handlers of each address is computed from the model of live actors; anything else, or more than one, is a violation.",
        "near-ids, symbols, leaving nodes and stale records in combination"),
"C18": ("Real gRPC between nodes in one process; bodies and headers compared byte by byte in both directions; one failure mode per call with the admissible outcomes; unique tags reveal mixed-up responses.",
        "concurrent remote calls with failures at every place"),
"C19": ("Handlers are parked while Send must return (virtual time); accepted sends are counted to exactly one handling, rejected ones to none; remote sends without a previous connection and ended request contexts are part of the workload.",
        "asynchrony and exactly-once over connection set-up and exits"),
"C20": ("Publications have sequence numbers; the deliveries of each channel are compared with the publication order (exactly once, order, contents), for channels added before, between and during publications.",
        "several consumers of a stream at different positions"),
"C21": ("The union of deliveries in a channel over all its subscribers must be every message exactly once, none by a subscriber after its exit; kept messages come in order; Close is judged by what is left in the store.",
        "exits during deliveries and subscriptions during closes"),
"C22": ("A register of holders with (virtual) expiry times; any acquisition inside another's holding interval is a violation; sequential histories are compared with an exact model and the store.",
        "mutual exclusion over all schedules, expiries and values"),
"C23": ("The server counts calls in flight; every call's outcome is compared with what the server did to it; slots are probed at the end by filling the client up to its limit.",
        "leaked slots show only after many failing calls in a row"),
"C24": ("Round trip of created tokens, and ten forgeries of each by an independent HMAC implementation of the monitor; anything but the original must be refused.",
        "the space of altered strings"),
"C25": ("A map model of each side of the message, compared through every getter after random operations.",
        "arbitrary combinations and values"),
"C26": ("Differential against an independent protocol-buffer encoder and decoder of the monitor (protowire), with allocation accounting per decode and recovery of panics.",
        "hostile bytes"),
"C27": ("Random programs over the whole public interface under the race detector and schedule noise; any race report with braid's frames, fatal error, escaped panic or operation that does not return is a violation.",
        "data races are visible to a happens-before detector only"),
"C28": ("A model of every builder and template compared after every step.", "independence over all programs of builders"),
"C29": ("Unique values; exactly once, per-producer order, and real-time order (push completed before push began) checked on stamped histories; a consumer that is idle while values remain is a lost wake-up (virtual time).",
        "interleavings inside a lock-free push"),
"C30": ("As C29 for the unbounded buffer; puts must not block with nobody reading (virtual time).", "interleavings of put and load"),
"C31": ("A recording tracer; the finished spans are matched one to one with the calls that were made, by tags, parents and trace ids.", "arbitrary trees over nodes with concurrent calls"),
"C32": ("Reports, drops and appends are counted; reported = appended + dropped, each exactly once, close returns after everything queued was flushed; reporting must not block (virtual time).", "slow and failing collectors with concurrent closes"),
"C33": ("An independent definition of code, message and equality for generated chains of wrapped errors, and pairs of them.", "any depth and any foreign error"),
"C34": ("Executions are compared with the (virtual) schedule a task had while started; hooks and the exception handler are counted around each execution.", "starts, stops, failures and panics in any order"),
"C35": ("Lookups compared with the sorted list of versions; concurrent registration under the race detector.", "all registration orders"),
"C36": ("Differential: every wrapper against the same command issued directly on a second store; results, errors and the complete contents of both stores are compared; transactions are observed by concurrent readers with connections cut at random bytes.", "all commands with all kinds of keys, arguments and failures"),
"C37": ("Hostile requests over real connections between correct ones; the node must answer each, the good ones must be right, and no actor may log anything from a refused one.", "arbitrary bytes"),
"C38": ("A node is stopped after a chosen store command (its connection to the store is cut and its server closed); then calls, symbols, counts and registrations are judged as the others find the stale records.", "every crash point of a registration and an unregistration"),
"C39": ("An independent parser and evaluator of field expressions compared on all values of the field; hostile strings must neither panic nor hang.", "the whole grammar"),
"C40": ("Differential against the driver, over two servers of the monitor that speak the wire protocol, record every command and make up the answers (documents, batches, write errors, command errors, cut connections, silence).", "all wrappers with all options and failures"),
"C42": ("The records that goroutines wrote are compared with the lines found in files and on the console, field by field and in order, across rotations (files are read as they rotate).", "concurrency with rotation"),
"C43": ("The worker signals itself while nodes work; accepted work, the store, the other node and the moment WaitClose returns are checked.", "a signal may arrive at any moment"),
"C45": ("Interceptors and loaders of the monitor record what they saw; the steps of every call are compared with those computed from the configured chain and each interceptor's plan.", "all combinations of interceptors and outcomes"),
"C44": ("A model of the files, compared after each step.", "all sequences of writes"),
}
