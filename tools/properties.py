#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the lines stay consistent)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CH, SU, DB = "opsqueue/src/common/chunk.rs", "opsqueue/src/common/submission.rs", "opsqueue/src/db/mod.rs"
STATE = [{"name": "submissions, submissions_completed, submissions_failed, submissions_cancelled", "meaning": "the four states a submission can be in"}, {"name": "chunks, chunks_completed, chunks_failed", "meaning": "where each chunk is"}]
OUT = []


def P(id, title, statement, over, text, why, files, mechanism, observe, state=STATE):
    OUT.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
                "anchors": {"files": files, "mechanism": [{"name": mechanism, "where": ", ".join(files)}], "state": state, "observe_at": observe}})


P("P01", "No chunk is ever lost, duplicated or handed out after it finished",
  "Every chunk of a submission is at any time in exactly one of: waiting, completed, failed or skipped. Completing, failing, retrying or cancelling (in time, late or repeatedly) moves chunks only forward, never drops or duplicates one, and never changes what was stored for a finished one.",
  ["histories", "inputs"], "every reachable database state within the bounds, every operation with every argument (also unknown ids, finished chunks, repeated reports)",
  "the tests complete or fail one or two chunks of a fresh submission; they never start from an arbitrary mix of finished, waiting and foreign chunks", [CH, SU],
  "each transition copies and deletes rows in one transaction keyed by submission and chunk index", ["database after any operation"])
P("P02", "Progress counts are exact and a submission completes exactly with its last chunk",
  "The number of finished chunks recorded for a submission always equals its total minus those still waiting. A submission becomes completed exactly when its last chunk is completed, not before and not later, whatever duplicate or late reports arrive.",
  ["histories", "inputs"], "every database state within the bounds and every completion report, including duplicates and late ones",
  "tests exercise the single increasing sequence 1..n; the historical counter bug (issue 76) needed a duplicate report", [CH, SU],
  "progress counter incremented in the same transaction as the chunk's move; completion test compares counter and total", ["submission status, database rows"])
P("P03", "A submission is in exactly one state and terminal states are permanent",
  "A submission that was accepted is in exactly one of the states in progress, completed, failed or cancelled. Once completed, failed or cancelled, no later report or request about it or its chunks changes its state or what is stored about it; only time-based cleanup removes it.",
  ["histories", "inputs"], "every database state and every operation on any submission, including terminal ones",
  "tests do not apply every operation to every terminal state", [CH, SU], "moves between per-state tables within one transaction", ["submission status, database rows"])
P("P04", "A failing chunk is retried up to the limit and then fails its submission",
  "Reporting a failure of a waiting chunk counts one more attempt; below the configured limit the chunk stays waiting, at the limit the whole submission becomes failed, recording that chunk, its input and its failure message, and every other waiting chunk is skipped. The caller is told whether the failure was permanent, and failing a chunk that is not waiting has no effect and is reported as an error.",
  ["histories", "inputs"], "every database state, every retry count and limit, every failure message",
  "tests use one limit and one chunk; boundary counts and siblings are not varied", [CH, SU], "retry counter compared with the limit in one transaction; remaining chunks marked skipped", ["return value, database rows"])
P("P05", "Cancelling works only in time and says why not",
  "Cancelling an in-progress submission makes it cancelled and skips all of its waiting chunks. For any other submission nothing changes and the caller learns precisely whether it was never known, completed, failed or already cancelled.",
  ["histories", "inputs"], "every database state and every submission id", "tests cover one submission per outcome with at most two chunks", [SU],
  "insert-select into the cancelled table, delete, skip remaining chunks, status lookup for the refusal", ["return value, database rows"])
P("P06", "An accepted submission is stored exactly as sent",
  "Accepting a submission stores every chunk exactly once, in the order and with the content sent, together with its prefix, metadata, chunk size and strategic metadata, and returns its id. A submission without chunks is completed immediately; nothing else changes.",
  ["inputs", "histories"], "every combination of contents, prefix, metadata, strategic metadata and existing rows within the bounds, including chunk counts around a batch boundary",
  "tests never cross the multi-row batch boundary and compare counts, not contents", [SU, CH], "one transaction with multi-row inserts in batches", ["database after insertion"])
P("P07", "Every operation is all-or-nothing under database errors and crashes",
  "If any database call inside inserting, completing, failing or cancelling fails, or the process dies at any moment, the stored state is as if the operation had either not started or fully finished. An operation that reports an error has changed nothing.",
  ["crash_points", "fault_sequences", "inputs"], "every position of one failing database call or crash, from every database state within the bounds",
  "no test injects a database failure or crash", [CH, SU, DB], "transactions committed on success, rolled back on error", ["durable database state"])
P("P10", "Cleanup removes exactly what is old",
  "Cleaning up removes the completed, failed and cancelled submissions that ended before the given time, with their strategic metadata, and finished chunks recorded before it. In-progress submissions, waiting chunks, and anything that ended at or after that time are untouched.",
  ["histories", "inputs"], "every database state within the bounds and every cut-off time", "tests use one old and one new submission", [SU],
  "deletes by end time in one transaction; metadata deleted through the submission's id", ["database after cleanup"])
P("P13", "Operations on one submission never affect another",
  "Inserting, completing, failing or cancelling affects only the rows of the submission it names: every other submission's state, chunks, counts and metadata are identical before and after.",
  ["histories", "inputs"], "every pair of submissions, every operation and argument", "tests usually have a single submission in the database", [CH, SU],
  "every statement is keyed by submission id", ["database after any operation"])
P("P15", "What a producer attached survives every state change",
  "The prefix, metadata, number of chunks, chunk size and trace context that were stored with a submission are unchanged when it completes or fails; cancelling keeps prefix, metadata and number of chunks.",
  ["histories", "inputs"], "every submission and every way it can end", "tests do not compare these fields after a transition (two were dropped)", [SU],
  "insert-select between the per-state tables", ["submission status after it ended"])
exec(open(os.path.join(V, "tools", "properties_more.py")).read()) if os.path.exists(os.path.join(V, "tools", "properties_more.py")) else None
OUT.sort(key=lambda x: x["id"])
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for o in OUT:
        f.write(json.dumps(o) + "\n")
