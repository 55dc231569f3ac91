"""Which harnesses decide which property, with the bounds (table capacities and pre-state row counts) of each."""


def K(s=1, sc=1, sf=1, sx=1, c=1, cc=1, cf=1, m=1, map=1):
    return {"submissions": s, "submissions_completed": sc, "submissions_failed": sf, "submissions_cancelled": sx, "chunks": c, "chunks_completed": cc, "chunks_failed": cf, "submissions_metadata": m, "map": map}


CORE_DB = ["opsqueue/src/common/chunk.rs", "opsqueue/src/common/submission.rs", "opsqueue/src/db/mod.rs", "opsqueue/migrations/*.sql"]
# harness -> (crate, capacities, record built queries first, what it encodes, bound in words)
H = {
    "complete_live": ("core", K(s=2, sc=2, c=3, cc=2), 0, "chunk::db::complete_chunk (complete_chunk_raw, maybe_complete_submission, complete_submission_raw, transaction)", "2 in-progress, 1 completed, 1 failed, 1 cancelled submission, 3 waiting + 1 completed + 1 failed chunk, all contents symbolic; the completed chunk's id is fixed"),
    "complete_late": ("core", K(s=2, sc=2, c=1, cc=2), 0, "chunk::db::complete_chunk on a chunk that is not waiting", "as complete_live with 1 waiting chunk; ids symbolic"),
    "complete": ("core", K(s=2, sc=2, c=3, cc=2), 0, "chunk::db::complete_chunk, ids symbolic", "2+1+1+1 submissions, 3+1+1 chunks"),
    "complete_fault": ("core", K(s=1, sc=2, c=2, cc=2, cf=1), 0, "chunk::db::complete_chunk with one failing statement/begin/commit at a symbolic point", "1+1 submissions, 2+1 chunks, one fault"),
    "fail_live": ("core", K(s=2, sf=2, c=3, cf=4), 0, "chunk::db::retry_or_fail_chunk, submission::db::fail_submission_notx, fail_submission_raw, move_chunk_to_failed_chunks, skip_remaining_chunks", "2+1+1+1 submissions, 3+1+1 chunks; failing chunk's id fixed; retry counts and limit symbolic"),
    "fail_late": ("core", K(s=2, sf=2, c=1, cf=2), 0, "chunk::db::retry_or_fail_chunk on a chunk that is not waiting", "2+1+1+1 submissions, 1+1+1 chunks; ids symbolic"),
    "fail": ("core", K(s=2, sf=2, c=3, cf=4), 0, "chunk::db::retry_or_fail_chunk, ids symbolic", "2+1+1+1 submissions, 3+1+1 chunks"),
    "fail_fault": ("core", K(s=1, sf=1, c=2, cf=2), 0, "chunk::db::retry_or_fail_chunk with one fault", "1+1 submissions, 2+1 chunks, one fault"),
    "cancel_live": ("core", K(s=2, sx=2, c=3, cf=4), 0, "submission::db::cancel_submission, cancel_submission_raw, skip_remaining_chunks", "2+1+1+1 submissions, 3+1+1 chunks; cancelled submission's id fixed"),
    "cancel_mid": ("core", K(s=2, sx=2, c=2, cf=3), 0, "submission::db::cancel_submission, cancel_submission_raw, skip_remaining_chunks", "2 in-progress, 1 cancelled submission, 2+1+1 chunks; cancelled submission's id fixed"),
    "cancel_dead": ("core", K(), 0, "submission::db::cancel_submission and submission_status on a submission that is not in progress", "1 completed, 1 failed, 1 cancelled submission; id symbolic"),
    "cancel": ("core", K(s=2, sx=2, c=3, cf=4), 0, "submission::db::cancel_submission, ids symbolic", "2+1+1+1 submissions, 3+1+1 chunks"),
    "cancel_fault": ("core", K(s=1, sc=1, c=2, cc=1, cf=2), 0, "submission::db::cancel_submission with one fault", "1+1 submissions, 2+1 chunks, one fault"),
    "insert_empty": ("core", K(s=2, sc=2), 1, "submission::db::insert_submission_from_chunks, insert_submission, insert_submission_raw, insert_submission_metadata, maybe_complete_submission (no chunks)", "no chunks, 1 metadata pair"),
    "insert_one": ("core", K(s=2, c=2, m=3, map=2), 1, "submission::db::insert_submission_from_chunks (1 chunk)", "1 chunk, 2 metadata pairs, other rows in the tables"),
    "insert_three": ("core", K(s=2, c=4), 1, "submission::db::insert_submission_from_chunks, chunk::db::insert_many_chunks across a batch boundary", "3 chunks; batch size scaled from 1000 to 2"),
    "insert_fault": ("core", K(c=3, m=2, s=2), 1, "submission::db::insert_submission_from_chunks with one fault", "2 chunks, 1 metadata pair, one fault"),
    "insert_empty_fault": ("core", K(s=2, sc=2), 1, "submission::db::insert_submission_from_chunks (no chunks) with one fault", "no chunks, one fault"),
    "cleanup": ("core", K(s=1, sc=2, c=1, cc=1, m=2, map=2), 0, "submission::db::periodically_cleanup_old's cleanup_old", "1+2+1+1 submissions, 1+1+1 chunks, 2 metadata pairs"),
}
GB = {"cancel_live": 6, "cancel": 6, "cancel_fault": 6, "cancel_dead": 5, "fail": 6, "fail_live": 5}
ASSUME = {"all": [
    "async code is sequentialised (every await runs to completion); another task interleaves only where a harness injects it",
    "SQLite is modelled by bounded tables executing the repository's own SQL text (compiled on this run); rows beyond the stated numbers, and values outside 64-bit integers / texts and blobs of at most 1 byte, are outside the bounds",
    "tracing, metrics, clock and id generation are stand-ins (clock: one symbolic instant per operation)",
    "compiled by the Kani 0.68 toolchain; CBMC 6 with CaDiCaL decides",
]}
J = {}
P = {
    "P01": {"quick": ["complete_live", "complete_late", "fail_live", "fail_late", "cancel_mid"], "thorough": ["complete", "fail", "cancel", "complete_live", "complete_late", "fail_live", "fail_late", "insert_three", "insert_one"]},
    "P02": {"quick": ["complete_live", "complete_late", "fail_late", "insert_three"], "thorough": ["complete", "fail", "cancel", "insert_three", "insert_one", "insert_empty"]},
    "P03": {"quick": ["complete_live", "complete_late", "fail_live", "fail_late", "cancel_dead"], "thorough": ["complete", "fail", "cancel", "insert_empty", "insert_one"]},
    "P04": {"quick": ["fail_live", "fail_late"], "thorough": ["fail", "fail_live", "fail_late", "complete", "cancel"]},
    "P05": {"quick": ["cancel_mid", "cancel_dead"], "thorough": ["cancel", "cancel_live", "cancel_dead"]},
    "P06": {"quick": ["insert_empty", "insert_one", "insert_three"]},
    "P07": {"quick": ["complete_fault", "fail_fault", "cancel_fault", "insert_fault"], "thorough": ["complete_fault", "fail_fault", "cancel_fault", "insert_fault", "insert_empty_fault", "complete", "fail", "cancel"]},
    "P10": {"quick": ["cleanup"]},
    "P13": {"quick": ["complete_live", "fail_live", "cancel_mid", "insert_one"], "thorough": ["complete", "fail", "cancel", "insert_one", "insert_three", "insert_empty"]},
    "P15": {"quick": ["complete_live", "fail_live", "cancel_mid"], "thorough": ["complete", "fail", "cancel"]},
}
NA = {}
H.update({
    "status_live": ("core", K(c=1, m=2, map=2), 0, "submission::db::submission_status", "1 in-progress submission, 2 metadata pairs, any id asked"),
    "status_completed": ("core", K(m=2, map=2), 0, "submission::db::submission_status", "1 completed submission, 2 metadata pairs, any id asked"),
    "status_failed": ("core", K(cf=2, m=2, map=2), 0, "submission::db::submission_status, chunk::db::get_chunk_failed", "1 failed submission, 2 failed chunks, 2 metadata pairs, any id asked"),
    "status_cancelled": ("core", K(m=2, map=2), 0, "submission::db::submission_status", "1 cancelled submission, 2 metadata pairs, any id asked"),
    "moving_completed": ("core", K(), 0, "submission::db::submission_status with a concurrent completion committed between any two statements", "1 submission, 1 transition"),
    "moving_failed": ("core", K(), 0, "submission::db::submission_status with a concurrent failure committed between any two statements", "1 submission, 1 transition"),
    "moving_cancelled": ("core", K(), 0, "submission::db::submission_status with a concurrent cancellation committed between any two statements", "1 submission, 1 transition"),
    "prefix": ("core", K(s=2, sc=2, c=2), 0, "submission::db::lookup_id_by_prefix", "2+2+1+1 submissions, prefixes of at most 1 byte"),
    "meta_none": ("core", K(s=3, sc=1), 1, "submission::db::lookup_ids_by_strategic_metadata without constraints", "3 in-progress submissions, limit 1..255"),
    "meta_one": ("core", K(s=2, m=2), 1, "submission::db::lookup_ids_by_strategic_metadata, lookup_ids_by_strategic_metadata_query (1 pair)", "2 in-progress submissions, 2 stored pairs"),
    "meta_two": ("core", K(s=2, m=3, map=2), 1, "submission::db::lookup_ids_by_strategic_metadata, lookup_ids_by_strategic_metadata_query (2 pairs)", "2 in-progress submissions, 3 stored pairs"),
})
P.update({
    "P08": {"quick": ["status_live", "status_completed", "status_failed", "status_cancelled"]},
    "P09": {"quick": ["moving_completed", "moving_failed", "moving_cancelled"]},
    "P11": {"quick": ["prefix"]},
    "P12": {"quick": ["meta_none", "meta_one", "meta_two"]},
})

MS = "metastate::MetaState::increment, decrement, get, is_empty, MetaStateField (opsqueue/src/consumer/dispatcher/metastate.rs)"
TR = "tracing::context_to_json, json_to_context, context_to_headers, context_from_headers, propagator (opsqueue/src/tracing.rs)"
KM = K(map=2)
RACE = "every schedule in which the second operation runs as a whole at any point between two map accesses of the first (path-split, 2 keys x 2 values)"
H.update({
    "race_fresh": ("meta", KM, 0, MS, "two first starts of one or two values at once; " + RACE),
    "race_value": ("meta", KM, 0, MS, "two starts of the same new value under a key that is in use; " + RACE),
    "race_last": ("meta", KM, 0, MS, "the last finish of a value and a start of the same or another value at once; " + RACE),
    "race_two": ("meta", KM, 0, MS, "two finishes of a value counted twice at once; " + RACE),
    "race_key": ("meta", KM, 0, MS, "the last finish of a key and a start under the same or another key at once; " + RACE),
    "race_pairs": ("meta", KM, 0, MS, "two workers that each start and finish the same value; " + RACE),
    "race_three": ("meta", KM, 0, MS, "two finishes and a start of one value, every nested schedule of three operations"),
    "sequence": ("meta", KM, 0, MS, "two starts and a finish in sequence, values symbolic"),
    "unpaired": ("meta", KM, 0, MS, "finishes without a start, values symbolic"),
    "text_one": ("meta", KM, 0, MS + ", to_json", "one value counted once or twice"),
    "text_two": ("meta", KM, 0, MS + ", to_json", "two values counted once"),
    "trace_none": ("meta", KM, 0, TR, "the empty context"),
    "trace_span": ("meta", KM, 0, TR, "a span context, also one whose text needs escaping; propagators are injective stand-ins"),
    "trace_baggage": ("meta", KM, 0, TR, "baggage, also one whose text needs escaping; propagators are injective stand-ins"),
    "trace_both": ("meta", KM, 0, TR, "span context and baggage"),
    "trace_malformed": ("meta", KM, 0, TR, "carriers that are empty, not an object, or cut off after each token"),
})
P.update({
    "P14": {"quick": ["race_fresh", "race_value", "race_last", "race_two", "race_key", "race_pairs", "sequence", "unpaired", "text_one", "text_two"], "thorough": ["race_fresh", "race_value", "race_last", "race_two", "race_key", "race_pairs", "race_three", "sequence", "unpaired", "text_one", "text_two"],
            "note": "Schedules are the nested ones (one operation runs wholly inside another, at every lock boundary); true interleavings with more switches are outside the bounds. dashmap is a stand-in with per-shard locks and entry semantics."},
    "P19": {"quick": ["trace_none", "trace_span", "trace_baggage", "trace_both", "trace_malformed"],
            "note": "Decides the repository's glue (both propagators installed, every carrier entry written and read back, malformed text ignored); the W3C encodings inside the OpenTelemetry crates are stand-ins."},
})
ASSUME["meta"] = ["dashmap, serde_json, http headers and the OpenTelemetry propagators are stand-ins with the documented behaviour of the crates"]
for _p in ("P14", "P19"):
    P[_p]["assume"] = ASSUME["meta"]

NA.update({
    "P16": "Exclusivity and expiry are provided by the moka cache, its eviction listener and tokio's delay queue; the repository's part is glue around them, so an encoding depends on stand-ins for all of them; a prototype was started and not all of its harnesses are decided within memory (DESIGN.md, Outside the claims).",
    "P17": "The select loop over a WebSocket and tokio timers could not be executed symbolically within reach: a prototype over stand-ins runs out of memory (DESIGN.md, Outside the claims).",
    "P18": "The selection queries call back into Rust (opsqueue_is_reserved, opsqueue_metadata_counts, json_each) while rows are streamed; the SQL compiler executes statements as a whole and cannot encode that dependence.",
})
