//! State-changing operations, each on every database state that satisfies the invariant (within the bounds).
use crate::st::*;
use sqlx::rt::{self, Cell, Db, Row};
use vsym::{assume, block_on, witness};
use crate::common::{chunk, submission, StrategicMetadataMap};
use crate::common::errors::*;

const FULL: Cfg = Cfg { s: 2, sc: 1, sf: 1, sx: 1, c: 3, cc: 1, cf: 1, m: 0 };
const SMALL: Cfg = Cfg { s: 1, sc: 1, sf: 0, sx: 0, c: 2, cc: 1, cf: 0, m: 0 };

// ------------------------------------------------------------------ completing a chunk
fn do_complete(id: i64, ix: i64, out: Option<Vec<u8>>) -> bool {
    block_on(async { let p = wpool(); match p.writer_conn().await { Ok(mut c) => chunk::db::complete_chunk(cid(id, ix), out, &mut c).await.is_ok(), Err(_) => false } })
}
/// exactly the effect of completing (id, ix)
fn effect_complete(pre: &Db, post: &Db, id: i64, ix: i64, out: Cell) -> bool {
    if chunk_(pre, id, ix).is_none() { return same_submission(pre, post, id); }
    let Some(s) = sub(pre, id) else { return false };
    let (t, n) = (s.c[S::CHUNKS_TOTAL].v, s.c[S::CHUNKS_DONE].v);
    let mut ok = chunk_(post, id, ix).is_none() && pending(post, id) == pending(pre, id) - 1;
    ok &= match chunk_done(post, id, ix) { Some(r) => r.c[CC::OUTPUT_CONTENT] == out && r.c[CC::COMPLETED_AT] == Cell::i(now()), None => false };
    if n + 1 == t {
        ok &= sub(post, id).is_none();
        ok &= match completed(post, id) { Some(r) => r.c[SC::COMPLETED_AT] == Cell::i(now()), None => false };
    } else {
        ok &= completed(post, id).is_none();
        ok &= match sub(post, id) { Some(r) => { let mut e = s; e.c[S::CHUNKS_DONE] = Cell::i(n + 1); r == e } None => false };
    }
    ok
}
fn common_post(pre: &Db, post: &Db, id: i64) {
    let p = id63();
    assert!(inv_states(post), "P03 a submission is in more than one state");
    if completed(pre, p).is_some() { assert!(completed(post, p) == completed(pre, p), "P03 a completed submission changed"); }
    if failed(pre, p).is_some() { assert!(failed(post, p) == failed(pre, p), "P03 a failed submission changed"); }
    if cancelled(pre, p).is_some() { assert!(cancelled(post, p) == cancelled(pre, p), "P03 a cancelled submission changed"); }
    if states(pre, p) == 1 { assert!(states(post, p) == 1, "P03 a submission vanished"); }
    if p != id { assert!(same_submission(pre, post, p), "P13 another submission was affected"); }
    assert!(inv_chunks(post), "P01 a chunk is waiting in an impossible place or exists twice");
    let x = id63();
    assert!(conserved(pre, post, p, x), "P01 a chunk was lost, duplicated, resurrected or changed after it finished");
    assert!(inv_failed(post), "P04 a failed submission without the chunk that failed it");
    assert!(inv_counts(post), "P02 progress count does not match the chunks");
    assert!(unsafe { rt::DEPTH } == 0, "P07 transaction left open");
}
fn crash_points(pre: &Db) {
    unsafe { for i in 0..2 { if rt::COMMITS > i as u32 { let d = rt::LOG[i]; assert!(inv_states(&d) && inv_counts(&d) && inv_chunks(&d), "P07 a crash at this point leaves an inconsistent database"); } } }
}

// ------------------------------------------------------------------ retry or fail
fn do_fail(id: i64, ix: i64, failure: String, max: u32) -> Result<bool, ()> {
    block_on(async { let p = wpool(); match p.writer_conn().await { Ok(mut c) => chunk::db::retry_or_fail_chunk(cid(id, ix), failure, &mut c, max).await.map_err(|_| ()), Err(_) => Err(()) } })
}
fn all_skipped(pre: &Db, post: &Db, id: i64, except: i64) -> bool {
    let mut ok = pending(post, id) == 0;
    for r in 0..rt::CAP_CHUNKS { let x = pre.chunks[r]; if x.live && x.c[C::SUBMISSION_ID].v == id && x.c[C::CHUNK_INDEX].v != except {
        ok &= match chunk_fail(post, id, x.c[C::CHUNK_INDEX].v) { Some(f) => f.c[CF::SKIPPED].v == 1 && f.c[CF::INPUT_CONTENT] == x.c[C::INPUT_CONTENT] && f.c[CF::FAILED_AT] == Cell::i(now()), None => false };
    } }
    ok
}
fn effect_fail(pre: &Db, post: &Db, id: i64, ix: i64, failure: Cell, max: u32) -> bool {
    let Some(c) = chunk_(pre, id, ix) else { return same_submission(pre, post, id) };
    let tries = c.c[C::RETRIES].v + 1;
    if tries < max as i64 {
        let mut e = c; e.c[C::RETRIES] = Cell::i(tries);
        let mut q = *pre;
        for r in 0..rt::CAP_CHUNKS { if q.chunks[r] == c { q.chunks[r] = e; } }
        return same_submission(&q, post, id);
    }
    let Some(s) = sub(pre, id) else { return false };
    let mut ok = sub(post, id).is_none();
    ok &= match failed(post, id) { Some(f) => f.c[SF::FAILED_CHUNK_ID] == Cell::i(ix) && f.c[SF::FAILED_AT] == Cell::i(now()) && f.c[SF::CHUNKS_DONE] == s.c[S::CHUNKS_DONE] && f.c[SF::CHUNKS_TOTAL] == s.c[S::CHUNKS_TOTAL], None => false };
    ok &= match chunk_fail(post, id, ix) { Some(f) => f.c[CF::FAILURE] == failure && f.c[CF::SKIPPED].v == 0 && f.c[CF::INPUT_CONTENT] == c.c[C::INPUT_CONTENT] && f.c[CF::FAILED_AT] == Cell::i(now()), None => false };
    ok && all_skipped(pre, post, id, ix)
}

// ------------------------------------------------------------------ cancel
#[derive(PartialEq, Clone, Copy)]
enum Can { Ok, NotFound, Completed, Failed, Cancelled, Db }
fn do_cancel(id: i64) -> Can {
    block_on(async {
        let p = wpool();
        match p.writer_conn().await {
            Err(_) => Can::Db,
            Ok(mut c) => match submission::db::cancel_submission(sid(id), &mut c).await {
                Ok(()) => Can::Ok,
                Err(E::L(_)) => Can::Db,
                Err(E::R(E::L(_))) => Can::NotFound,
                Err(E::R(E::R(SubmissionNotCancellable::Completed(s)))) => { assert!(i64::from(s.id) == id, "P05 refusal names another submission"); Can::Completed }
                Err(E::R(E::R(SubmissionNotCancellable::Failed(s, _)))) => { assert!(i64::from(s.id) == id, "P05 refusal names another submission"); Can::Failed }
                Err(E::R(E::R(SubmissionNotCancellable::Cancelled(s)))) => { assert!(i64::from(s.id) == id, "P05 refusal names another submission"); Can::Cancelled }
            },
        }
    })
}
fn effect_cancel(pre: &Db, post: &Db, id: i64) -> bool {
    let Some(s) = sub(pre, id) else { return same_submission(pre, post, id) };
    let mut ok = sub(post, id).is_none();
    ok &= match cancelled(post, id) { Some(r) => r.c[SX::CANCELLED_AT] == Cell::i(now()) && r.c[SX::CHUNKS_DONE] == s.c[S::CHUNKS_DONE] && r.c[SX::CHUNKS_TOTAL] == s.c[S::CHUNKS_TOTAL], None => false };
    ok && all_skipped(pre, post, id, -1)
}
// ------------------------------------------------------------------ insert
struct Ins { id: i64, n: usize, c: [Cell; 3], prefix: Cell, meta: Cell, size: i64, nm: usize, k: [Cell; 2], v: [i64; 2], ok: bool }
fn do_insert(pre: &Db, n: usize, nm: usize) -> Ins {
    let id = id63();
    assume(rows_of(pre, id) == 0 && id < i64::MAX);
    unsafe { snowflaked::NEXT = id as u64; }
    let mut cells = [Cell::NULL; 3];
    let mut contents: Vec<chunk::Content> = Vec::with_capacity(4);
    // which chunks have inline content is fixed per size (one: any; more: alternating), the bytes are arbitrary
    for i in 0..3 { if i < n { if n == 1 { let (v, c) = oblob(); cells[i] = c; contents.push(v); } else if i % 2 == 0 { let (v, c) = blob1(); cells[i] = c; contents.push(Some(v)); } else { contents.push(None); } } }
    let (prefix, pc) = otext();
    let (metadata, mc) = oblob();
    let size = vsym::sparse(); assume(size > 0);
    let mut map = StrategicMetadataMap::default();
    let mut k = [Cell::NULL; 2]; let mut v = [0; 2];
    for i in 0..2 { if i < nm { let (t, tc) = text1(); let x = vsym::sparse(); if i == 1 { assume(tc != k[0]); } k[i] = tc; v[i] = x; map.push_unchecked(t, x);  } }
    let r = block_on(async { let p = wpool(); match p.writer_conn().await { Ok(mut c) => match submission::db::insert_submission_from_chunks(prefix, contents, metadata, map, chunk::ChunkSize(size), &mut c).await { Ok(s) => Some(s), Err(_) => None }, Err(_) => None } });
    if let Some(s) = r { assert!(i64::from(s) == id, "P06 the returned id is not the inserted submission's"); }
    Ins { id, n, c: cells, prefix: pc, meta: mc, size, nm, k, v, ok: r.is_some() }
}
fn effect_insert(pre: &Db, post: &Db, i: &Ins) -> bool {
    let mut ok = states(post, i.id) == 1 && pending(post, i.id) == i.n as i64;
    if i.n == 0 {
        ok &= match completed(post, i.id) { Some(r) => r.c[SC::CHUNKS_TOTAL].v == 0 && r.c[SC::PREFIX] == i.prefix && r.c[SC::METADATA] == i.meta, None => false };
    } else {
        ok &= match sub(post, i.id) { Some(r) => r.c[S::CHUNKS_TOTAL].v == i.n as i64 && r.c[S::CHUNKS_DONE].v == 0 && r.c[S::PREFIX] == i.prefix && r.c[S::METADATA] == i.meta && r.c[S::CHUNK_SIZE] == Cell::i(i.size), None => false };
    }
    for x in 0..3 { if x < i.n { ok &= match chunk_(post, i.id, x as i64) { Some(r) => r.c[C::INPUT_CONTENT] == i.c[x] && r.c[C::RETRIES].v == 0, None => false }; } }
    let mut nm = 0;
    for r in 0..rt::CAP_SUBMISSIONS_METADATA { let x = post.submissions_metadata[r]; if x.live && x.c[M::SUBMISSION_ID].v == i.id { nm += 1; } }
    ok &= nm == i.nm;
    for x in 0..2 { if x < i.nm { ok &= meta(post, i.id, i.k[x]) == Cell::i(i.v[x]); } }
    ok
}

fn insert_case(cfg: Cfg, n: usize, nm: usize) {
    let pre = sym(cfg);
    let i = do_insert(&pre, n, nm);
    let post = *rt::db();
    assert!(i.ok, "P06 insertion failed");
    assert!(effect_insert(&pre, &post, &i), "P06 the stored submission is not the one that was sent");
    let p = id63();
    if p != i.id { assert!(same_submission(&pre, &post, p), "P13 another submission was affected"); }
    assert!(inv_states(&post), "P03 a submission is in more than one state");
    assert!(inv_chunks(&post), "P01 a chunk is waiting in an impossible place or exists twice");
    assert!(inv_counts(&post), "P02 progress count does not match the chunks");
    crash_points(&pre);
    witness!(i.ok, "inserted");
}
fn insert_fault_case(n: usize, nm: usize) {
    let pre = sym(Cfg { s: 1, c: 1, ..NONE });
    unsafe { rt::FAULTS = 1; }
    let i = do_insert(&pre, n, nm);
    let post = unsafe { rt::DURABLE };
    let p = id63();
    let unchanged = same_submission(&pre, &post, p);
    if i.n > 0 {
        assert!(unchanged || effect_insert(&pre, &post, &i), "P07 a failure half-way left part of the effect");
        if !i.ok { assert!(unchanged, "P07 an operation that reported an error changed the database"); }
    }
    if i.ok { assert!(effect_insert(&pre, &post, &i), "P07 an operation that reported success did not happen"); }
    assert!(unsafe { rt::DEPTH } == 0, "P07 transaction left open");
    crash_points(&pre);
    witness!(!i.ok, "fault"); witness!(i.ok, "no fault");
}

fn complete_case(pre: Db, id: i64, ix: i64) -> Db {
    let (out, oc) = oblob();
    do_complete(id, ix, out);
    let post = *rt::db();
    assert!(effect_complete(&pre, &post, id, ix, oc), "P02 completing a chunk did not have exactly its effect");
    if let (Some(a), Some(b)) = (sub(&pre, id), completed(&post, id)) {
        assert!(a.c[S::CHUNKS_TOTAL] == b.c[SC::CHUNKS_TOTAL] && a.c[S::PREFIX] == b.c[SC::PREFIX] && a.c[S::METADATA] == b.c[SC::METADATA] && a.c[S::CHUNK_SIZE] == b.c[SC::CHUNK_SIZE] && a.c[S::OTEL_TRACE_CARRIER] == b.c[SC::OTEL_TRACE_CARRIER], "P15 completion changed what the producer attached");
    }
    common_post(&pre, &post, id);
    crash_points(&pre);
    post
}
fn fail_case(pre: Db, id: i64, ix: i64) -> (Result<bool, ()>, Db) {
    let (f, fc) = text1();
    let max = vsym::u32_();
    for r in 0..rt::CAP_CHUNKS { assume(pre.chunks[r].c[C::RETRIES].v < 1 << 40); }
    let r = do_fail(id, ix, f, max);
    let post = *rt::db();
    assert!(effect_fail(&pre, &post, id, ix, fc, max), "P04 reporting a failure did not have exactly its effect");
    match chunk_(&pre, id, ix) {
        None => assert!(r.is_err(), "P04 failing a chunk that is not waiting is reported as done"),
        Some(c) => assert!(r == Ok(c.c[C::RETRIES].v + 1 >= max as i64), "P04 wrong report whether the chunk failed for good"),
    }
    if let (Some(a), Some(b)) = (sub(&pre, id), failed(&post, id)) {
        assert!(a.c[S::CHUNKS_TOTAL] == b.c[SF::CHUNKS_TOTAL] && a.c[S::PREFIX] == b.c[SF::PREFIX] && a.c[S::METADATA] == b.c[SF::METADATA] && a.c[S::CHUNK_SIZE] == b.c[SF::CHUNK_SIZE] && a.c[S::OTEL_TRACE_CARRIER] == b.c[SF::OTEL_TRACE_CARRIER], "P15 failing changed what the producer attached");
    }
    common_post(&pre, &post, id);
    crash_points(&pre);
    (r, post)
}
fn cancel_case(pre: Db, id: i64) -> (Can, Db) {
    let r = do_cancel(id);
    let post = *rt::db();
    assert!(effect_cancel(&pre, &post, id), "P05 cancelling did not have exactly its effect");
    let want = if sub(&pre, id).is_some() { Can::Ok } else if completed(&pre, id).is_some() { Can::Completed } else if failed(&pre, id).is_some() { Can::Failed } else if cancelled(&pre, id).is_some() { Can::Cancelled } else { Can::NotFound };
    assert!(r == want, "P05 wrong outcome reported for a cancellation");
    if let (Some(a), Some(b)) = (sub(&pre, id), cancelled(&post, id)) {
        assert!(a.c[S::CHUNKS_TOTAL] == b.c[SX::CHUNKS_TOTAL] && a.c[S::PREFIX] == b.c[SX::PREFIX] && a.c[S::METADATA] == b.c[SX::METADATA], "P15 cancelling changed what the producer attached");
    }
    common_post(&pre, &post, id);
    crash_points(&pre);
    (r, post)
}
harnesses! {
    cancel_live(11) {
        let pre = sym_pin(FULL, true, false);
        let (r, _) = cancel_case(pre, ID);
        witness!(r == Can::Ok && pending(&pre, ID) == 2, "cancelled with chunks waiting");
    }
    cancel_mid(11) {
        let pre = sym_pin(Cfg { s: 2, sx: 1, c: 2, cc: 1, cf: 1, ..NONE }, true, false);
        let (r, _) = cancel_case(pre, ID);
        witness!(r == Can::Ok && pending(&pre, ID) == 2, "cancelled with chunks waiting");
        witness!(r == Can::Ok && pending(&pre, ID) == 1, "another submission's chunk is waiting");
    }
    cancel_dead(11) {
        let pre = sym(Cfg { sc: 1, sf: 1, sx: 1, cc: 1, cf: 1, ..NONE });
        let (r, _) = cancel_case(pre, id63());
        witness!(r == Can::NotFound, "not found");
        witness!(r == Can::Completed, "too late: completed");
        witness!(r == Can::Failed, "too late: failed");
        witness!(r == Can::Cancelled, "too late: cancelled");
    }
    complete_live(11) {
        let pre = sym_pin(FULL, true, true);
        let post = complete_case(pre, ID, IX);
        witness!(completed(&post, ID).is_some(), "a submission completes");
        witness!(sub(&post, ID).is_some(), "progress without completion");
    }
    complete_late(11) {
        let pre = sym(Cfg { c: 1, ..FULL });
        let (id, ix) = (id63(), id63());
        assume(chunk_(&pre, id, ix).is_none());
        complete_case(pre, id, ix);
        witness!(sub(&pre, id).is_some() && chunk_done(&pre, id, ix).is_some(), "a duplicate completion");
        witness!(completed(&pre, id).is_some(), "a late completion");
    }
    complete(11) {
        let pre = sym(FULL);
        let (id, ix) = (id63(), id63());
        let post = complete_case(pre, id, ix);
        witness!(sub(&pre, id).is_some() && completed(&post, id).is_some(), "a submission completes");
        witness!(sub(&pre, id).is_some() && sub(&post, id).is_some() && sub(&pre, id) != sub(&post, id), "progress without completion");
        witness!(sub(&pre, id).is_some() && chunk_done(&pre, id, ix).is_some(), "a duplicate completion");
        witness!(completed(&pre, id).is_some(), "a late completion");
    }
    complete_fault(11) {
        let pre = sym(SMALL);
        let (id, ix) = (id63(), id63());
        let (out, oc) = oblob();
        unsafe { rt::FAULTS = 1; }
        do_complete(id, ix, out);
        let post = unsafe { rt::DURABLE };
        let p = id63();
        assert!(same_submission(&pre, &post, p) || effect_complete(&pre, &post, id, ix, oc), "P07 a failure half-way left part of the effect");
        assert!(unsafe { rt::DEPTH } == 0, "P07 transaction left open");
        crash_points(&pre);
        witness!(unsafe { rt::FAULTED } && chunk_(&pre, id, ix).is_some(), "fault on a waiting chunk");
        witness!(!unsafe { rt::FAULTED } && completed(&post, id).is_some() && sub(&pre, id).is_some(), "no fault");
    }
    fail_live(11) {
        let pre = sym_pin(FULL, true, true);
        let (r, _) = fail_case(pre, ID, IX);
        witness!(r == Ok(true) && pending(&pre, ID) == 3, "permanent failure with chunks left to skip");
        witness!(r == Ok(false), "retry");
    }
    fail_late(11) {
        let pre = sym(Cfg { c: 1, ..FULL });
        let (id, ix) = (id63(), id63());
        assume(chunk_(&pre, id, ix).is_none());
        let (r, _) = fail_case(pre, id, ix);
        witness!(r.is_err() && failed(&pre, id).is_some(), "late failure");
        witness!(r.is_err() && sub(&pre, id).is_some(), "unknown chunk");
    }
    fail(11) {
        let pre = sym(FULL);
        let (id, ix) = (id63(), id63());
        let (r, _) = fail_case(pre, id, ix);
        witness!(r == Ok(true) && pending(&pre, id) == 2, "permanent failure with chunks left to skip");
        witness!(r == Ok(false), "retry");
        witness!(r.is_err() && failed(&pre, id).is_some(), "late failure");
    }
    fail_fault(11) {
        let pre = sym(SMALL);
        let (id, ix) = (id63(), id63());
        let (f, fc) = text1();
        let max = vsym::u32_();
        for r in 0..rt::CAP_CHUNKS { assume(pre.chunks[r].c[C::RETRIES].v < 1 << 40); }
        unsafe { rt::FAULTS = 1; }
        let r = do_fail(id, ix, f, max);
        let post = unsafe { rt::DURABLE };
        let p = id63();
        let unchanged = same_submission(&pre, &post, p);
        assert!(unchanged || effect_fail(&pre, &post, id, ix, fc, max), "P07 a failure half-way left part of the effect");
        if r.is_err() { assert!(unchanged, "P07 an operation that reported an error changed the database"); }
        if r.is_ok() { assert!(effect_fail(&pre, &post, id, ix, fc, max), "P07 an operation that reported success did not happen"); }
        assert!(unsafe { rt::DEPTH } == 0, "P07 transaction left open");
        crash_points(&pre);
        witness!(unsafe { rt::FAULTED } && chunk_(&pre, id, ix).is_some(), "fault on a waiting chunk");
        witness!(!unsafe { rt::FAULTED } && r == Ok(true), "no fault");
    }
    cancel(11) {
        let pre = sym(FULL);
        let id = id63();
        let (r, _) = cancel_case(pre, id);
        witness!(r == Can::Ok && pending(&pre, id) == 2, "cancelled with chunks waiting");
        witness!(r == Can::NotFound, "not found");
        witness!(r == Can::Completed, "too late: completed");
        witness!(r == Can::Failed, "too late: failed");
        witness!(r == Can::Cancelled, "too late: cancelled");
    }
    cancel_fault(11) {
        let pre = sym(SMALL);
        let id = id63();
        unsafe { rt::FAULTS = 1; }
        let r = do_cancel(id);
        let post = unsafe { rt::DURABLE };
        let p = id63();
        let unchanged = same_submission(&pre, &post, p);
        assert!(unchanged || effect_cancel(&pre, &post, id), "P07 a failure half-way left part of the effect");
        if r != Can::Ok { assert!(unchanged, "P07 an operation that reported an error changed the database"); }
        if r == Can::Ok { assert!(effect_cancel(&pre, &post, id), "P07 an operation that reported success did not happen"); }
        assert!(unsafe { rt::DEPTH } == 0, "P07 transaction left open");
        crash_points(&pre);
        witness!(unsafe { rt::FAULTED } && sub(&pre, id).is_some(), "fault");
        witness!(r == Can::Ok, "no fault");
    }
    insert_empty(11) { insert_case(Cfg { s: 1, sc: 1, c: 1, ..NONE }, 0, 1); }
    insert_one(11) { insert_case(Cfg { s: 1, sc: 0, sf: 1, sx: 1, c: 1, cc: 1, cf: 1, m: 1 }, 1, 2); }
    insert_three(11) { insert_case(Cfg { s: 1, c: 1, ..NONE }, 3, 0); }
    insert_fault(11) { insert_fault_case(2, 1); }
    insert_empty_fault(11) { insert_fault_case(0, 0); }
    cleanup(11) {
        let pre = sym(Cfg { s: 1, sc: 2, sf: 1, sx: 1, c: 1, cc: 1, cf: 1, m: 2 });
        let t = vsym::u32_() as i64;
        let r = block_on(async { let p = wpool(); let mut c = p.writer_conn().await.unwrap(); submission::db::cleanup_old(&mut c, chrono::at(t)).await.is_ok() });
        assert!(r, "P10 cleanup failed");
        let post = *rt::db();
        let p = id63(); let x = id63();
        assert!(sub(&pre, p) == sub(&post, p), "P10 cleanup touched an in-progress submission");
        assert!(chunk_(&pre, p, x) == chunk_(&post, p, x), "P10 cleanup touched a waiting chunk");
        let mut gone = false;
        if let Some(r) = completed(&pre, p) { if r.c[SC::COMPLETED_AT].v < t { gone = true; assert!(completed(&post, p).is_none(), "P10 an old completed submission was kept"); } else { assert!(completed(&post, p) == Some(r), "P10 a recent completed submission was removed or changed"); } }
        if let Some(r) = failed(&pre, p) { if r.c[SF::FAILED_AT].v < t { gone = true; assert!(failed(&post, p).is_none(), "P10 an old failed submission was kept"); } else { assert!(failed(&post, p) == Some(r), "P10 a recent failed submission was removed or changed"); } }
        if let Some(r) = cancelled(&pre, p) { if r.c[SX::CANCELLED_AT].v < t { gone = true; assert!(cancelled(&post, p).is_none(), "P10 an old cancelled submission was kept"); } else { assert!(cancelled(&post, p) == Some(r), "P10 a recent cancelled submission was removed or changed"); } }
        if let Some(r) = chunk_done(&pre, p, x) { if r.c[CC::COMPLETED_AT].v >= t { assert!(chunk_done(&post, p, x) == Some(r), "P10 a recent completed chunk was removed"); } else { assert!(chunk_done(&post, p, x).is_none(), "P10 an old completed chunk was kept"); } }
        if let Some(r) = chunk_fail(&pre, p, x) { if r.c[CF::FAILED_AT].v >= t { assert!(chunk_fail(&post, p, x) == Some(r), "P10 a recent failed chunk was removed"); } else { assert!(chunk_fail(&post, p, x).is_none(), "P10 an old failed chunk was kept"); } }
        let (_, k) = text1();
        if gone { assert!(meta(&post, p, k).null, "P10 metadata of a removed submission was kept"); } else { assert!(meta(&post, p, k) == meta(&pre, p, k), "P10 metadata of a kept submission was removed"); }
        assert!(inv_states(&post) && inv_counts(&post) && inv_chunks(&post) && inv_failed(&post), "P10 cleanup left an inconsistent database");
        assert!(unsafe { rt::DEPTH } == 0, "P07 transaction left open");
        witness!(gone, "something removed"); witness!(completed(&post, p).is_some(), "something kept"); witness!(!meta(&post, p, k).null, "metadata kept");
    }
}
