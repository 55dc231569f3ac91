P("P08", "A status report is exactly what is stored",
  "Asking for the status of a submission reports the state it is in and, for every state, exactly the stored prefix, counts, chunk size, metadata, strategic metadata, times and trace context (for a failed one also the chunk that failed, with its input and message). An unknown id is reported as unknown, a submission stored without a chunk size has chunk size 1, and asking changes nothing.",
  ["inputs", "histories"], "every stored submission in every state and every id asked for", "tests compare single fields of a few submissions", [SU, CH],
  "one query per state table, in the order a submission moves", ["status reported to the producer"])
P("P09", "A status is right even while the submission moves on",
  "While other connections complete, fail or cancel a submission, asking for its status never reports it as unknown, never fails, and never reports a state it was not in at some moment of the request.",
  ["schedules"], "every point between two database statements of the request at which a concurrent transition commits", "tests never interleave a writer with a status request", [SU],
  "tables are queried in the order in which a submission moves through them", ["status reported to the producer"])
P("P11", "Looking up a prefix finds a submission exactly when there is one",
  "Looking up a prefix returns a submission carrying exactly that prefix whenever an in-progress, completed or failed submission has it, and nothing when no submission has it.",
  ["inputs", "histories"], "every prefix and every set of stored submissions", "tests store one submission", [SU], "union over the state tables", ["id returned to the producer"])
P("P12", "Lookup by metadata returns all matches or refuses",
  "Looking up in-progress submissions by strategic metadata returns each submission that has all of the given pairs exactly once, in ascending order, and no other. If there are more than the given limit, the lookup is refused instead of being cut short, for every valid limit.",
  ["inputs", "histories"], "every set of submissions and pairs, every limit up to the largest valid one", "tests use a handful of rows and one limit", [SU, "opsqueue/src/common/mod.rs"],
  "one inner join per pair with a limit one above the allowed number", ["ids returned to the producer"])

MSF, TRF = "opsqueue/src/consumer/dispatcher/metastate.rs", "opsqueue/src/tracing.rs"
P("P14", "Load counts used for distinctness are exact under concurrency",
  "For every metadata key and value, the load count equals the number of started minus finished pieces of work carrying it, whatever starts and finishes overlap in time. A value nobody works on has no entry, a key nobody works on is not listed, a finish without a start changes nothing, and the counts handed to the selection query are exactly the stored ones.",
  ["schedules", "histories"], "every order and nesting of concurrent starts and finishes of the same or different values and keys",
  "the existing tests are sequential (or a few threads under one lucky schedule)", [MSF],
  "nested concurrent maps; entries created on first start and removed when the last finish leaves them empty", ["MetaState::get, MetaState::is_empty, MetaStateField::to_json"],
  state=[{"name": "MetaState", "meaning": "number of reserved chunks per metadata key and value"}])
P("P19", "A trace context travels unchanged with a submission",
  "The trace context of a producer, span and baggage, is the same after it was stored with the submission and read back, and after it was sent through request headers. A missing or malformed carrier gives the empty context and never a crash.",
  ["inputs"], "every combination of span context and baggage, every short malformed carrier", "there is no test of the propagation", [TRF],
  "composite propagator over a string map serialised as JSON, or over headers", ["tracing::json_to_context, tracing::context_from_headers"],
  state=[{"name": "otel_trace_carrier", "meaning": "JSON text of the stored trace context"}])
RS, DI, CO, SG = "opsqueue/src/consumer/dispatcher/reserver.rs", "opsqueue/src/consumer/dispatcher/mod.rs", "opsqueue/src/consumer/server/conn.rs", "opsqueue/src/consumer/strategy.rs"
P("P16", "A chunk is reserved by at most one consumer at a time",
  "While a chunk is reserved it is handed to no other consumer. A reservation ends when its chunk is completed, fails, its consumer disconnects or it expires, after which the chunk can be handed out again.",
  ["schedules", "histories"], "every interleaving of consumers fetching, finishing, disconnecting and reservations expiring", "tests use one or two consumers and real timers", [RS, DI],
  "expiring map of reservations with an eviction listener and a delay queue", ["chunks handed to consumers"], state=[{"name": "Reserver", "meaning": "reserved chunks with expiry"}])
P("P17", "A dead connection is noticed and its chunks return",
  "A consumer that stops answering heartbeats is disconnected after the configured number of missed ones, never earlier while it answers, and everything it had reserved becomes available again.",
  ["schedules"], "every order of heartbeats, messages and timer ticks", "tests cannot control timers and sockets", [CO], "missed-heartbeat counter in a select loop", ["connection state, reservations"],
  state=[{"name": "ConsumerConn", "meaning": "heartbeats missed, reservations held"}])
P("P18", "Selection offers every waiting chunk in the strategy's order",
  "Each strategy offers every waiting unreserved chunk exactly once and no other, oldest first, newest first, in a random rotation, or least loaded metadata value first.",
  ["inputs", "histories"], "every set of waiting chunks, reservations, load counts and strategy", "tests look at a few rows per strategy", [SG], "SQL built per strategy with call-backs for reservations and load counts", ["chunks offered to a consumer"],
  state=[{"name": "chunks", "meaning": "waiting chunks"}])
