//! Read operations: what they report is what is stored.
use crate::st::*;
use sqlx::rt::{self, Cell, Db, Row};
use vsym::{assume, block_on, witness};
use crate::common::{chunk, submission, StrategicMetadataMap, MaxSubmissions};
use crate::common::errors::*;
use crate::common::submission::SubmissionStatus as St;

fn ot(s: &Option<String>) -> Cell { match s { Some(s) => Cell::text(s.as_bytes()), None => Cell::NULL } }
fn ob(s: &Option<Vec<u8>>) -> Cell { match s { Some(s) => Cell::blob(s), None => Cell::NULL } }
/// a submission stored without a chunk size has chunk size 1
fn z(c: Cell) -> i64 { if c.null { 1 } else { c.v } }
/// text columns that are declared NOT optional by the reader decode NULL as ""
fn tx(c: Cell) -> Cell { if c.null { Cell::text(&[]) } else { c } }
#[derive(PartialEq, Clone, Copy)]
enum Is { None, Live, Completed, Failed, Cancelled, Err }
fn meta_eq(d: &Db, id: i64, m: &StrategicMetadataMap) -> bool {
    let (k, kc) = text1();
    let mut ok = match m.get(&k) { Some(v) => meta(d, id, kc) == Cell::i(*v), None => meta(d, id, kc).null };
    let mut n = 0;
    for r in 0..rt::CAP_SUBMISSIONS_METADATA { let x = d.submissions_metadata[r]; if x.live && x.c[M::SUBMISSION_ID].v == id { n += 1; } }
    ok && m.len() == n
}
/// asks for the status of `id`; in every state of `ds` where it is said to be so, the report must be exact
fn status(d: &Db, id: i64) -> (Is, bool) {
    let r = block_on(async { let p = rpool(); let mut c = p.reader_conn().await.unwrap(); submission::db::submission_status(sid(id), &mut c).await });
    match r {
        Err(_) => (Is::Err, false),
        Ok(None) => (Is::None, states(d, id) == 0),
        Ok(Some(St::InProgress(s))) => (Is::Live, match sub(d, id) { Some(r) => i64::from(s.id) == id && ot(&s.prefix) == r.c[S::PREFIX] && i64::from(s.chunks_total) == r.c[S::CHUNKS_TOTAL].v && i64::from(s.chunks_done) == r.c[S::CHUNKS_DONE].v && s.chunk_size.0 == z(r.c[S::CHUNK_SIZE]) && ob(&s.metadata) == r.c[S::METADATA] && Cell::text(s.otel_trace_carrier.as_bytes()) == tx(r.c[S::OTEL_TRACE_CARRIER]) && meta_eq(d, id, &s.strategic_metadata), None => false }),
        Ok(Some(St::Completed(s))) => (Is::Completed, match completed(d, id) { Some(r) => i64::from(s.id) == id && ot(&s.prefix) == r.c[SC::PREFIX] && i64::from(s.chunks_total) == r.c[SC::CHUNKS_TOTAL].v && s.chunk_size.0 == z(r.c[SC::CHUNK_SIZE]) && ob(&s.metadata) == r.c[SC::METADATA] && s.completed_at == chrono::at(r.c[SC::COMPLETED_AT].v) && Cell::text(s.otel_trace_carrier.as_bytes()) == tx(r.c[SC::OTEL_TRACE_CARRIER]) && meta_eq(d, id, &s.strategic_metadata), None => false }),
        Ok(Some(St::Failed(s, c))) => (Is::Failed, match failed(d, id) { Some(r) => i64::from(s.id) == id && ot(&s.prefix) == r.c[SF::PREFIX] && i64::from(s.chunks_total) == r.c[SF::CHUNKS_TOTAL].v && (match s.chunks_done { Some(n) => r.c[SF::CHUNKS_DONE] == Cell::i(i64::from(n)), None => r.c[SF::CHUNKS_DONE].null }) && s.chunk_size.0 == z(r.c[SF::CHUNK_SIZE]) && ob(&s.metadata) == r.c[SF::METADATA] && s.failed_at == chrono::at(r.c[SF::FAILED_AT].v) && i64::from(s.failed_chunk_id) == r.c[SF::FAILED_CHUNK_ID].v && meta_eq(d, id, &s.strategic_metadata)
            && match chunk_fail(d, id, r.c[SF::FAILED_CHUNK_ID].v) { Some(f) => i64::from(c.submission_id) == id && i64::from(c.chunk_index) == f.c[CF::CHUNK_INDEX].v && ob(&c.input_content) == f.c[CF::INPUT_CONTENT] && Cell::text(c.failure.as_bytes()) == tx(f.c[CF::FAILURE]) && c.failed_at == chrono::at(f.c[CF::FAILED_AT].v), None => false }, None => false }),
        Ok(Some(St::Cancelled(s))) => (Is::Cancelled, match cancelled(d, id) { Some(r) => i64::from(s.id) == id && ot(&s.prefix) == r.c[SX::PREFIX] && i64::from(s.chunks_total) == r.c[SX::CHUNKS_TOTAL].v && i64::from(s.chunks_done) == r.c[SX::CHUNKS_DONE].v && ob(&s.metadata) == r.c[SX::METADATA] && s.cancelled_at == chrono::at(r.c[SX::CANCELLED_AT].v) && meta_eq(d, id, &s.strategic_metadata), None => false }),
    }
}
fn truth(d: &Db, id: i64) -> Is { if sub(d, id).is_some() { Is::Live } else if completed(d, id).is_some() { Is::Completed } else if failed(d, id).is_some() { Is::Failed } else if cancelled(d, id).is_some() { Is::Cancelled } else { Is::None } }
fn status_case(cfg: Cfg) -> Is {
    let pre = sym(cfg);
    let id = id63();
    let (is, exact) = status(&pre, id);
    assert!(is != Is::Err, "P08 asking for a status failed");
    assert!(is == truth(&pre, id), "P08 wrong state reported");
    assert!(exact, "P08 the reported submission is not the stored one");
    let p = id63();
    assert!(same_submission(&pre, rt::db(), p), "P08 asking for a status changed the database");
    is
}

// ------------------------------------------------------------------ status while the submission moves on
static mut SEEN: [bool; 6] = [false; 6];
static mut NEXT: u8 = 0;
fn note() { unsafe { SEEN[truth(rt::db(), ID) as usize] = true; } }
/// another connection commits one transition of ID at any point between two statements
fn writer() {
    if !vsym::bool_() { return; }
    let d = rt::db();
    if !d.submissions[0].live { return; }
    let s = d.submissions[0];
    let to = unsafe { NEXT };
    d.submissions[0].live = false;
    if to == 0 { let mut r = Row::NULLS; r.live = true; r.c[SC::ID] = s.c[S::ID]; r.c[SC::PREFIX] = s.c[S::PREFIX]; r.c[SC::CHUNKS_TOTAL] = s.c[S::CHUNKS_TOTAL]; r.c[SC::CHUNK_SIZE] = s.c[S::CHUNK_SIZE]; r.c[SC::COMPLETED_AT] = Cell::i(now()); r.c[SC::OTEL_TRACE_CARRIER] = tx(s.c[S::OTEL_TRACE_CARRIER]); d.submissions_completed[0] = r; }
    if to == 1 {
        let mut r = Row::NULLS; r.live = true; r.c[SF::ID] = s.c[S::ID]; r.c[SF::PREFIX] = s.c[S::PREFIX]; r.c[SF::CHUNKS_TOTAL] = s.c[S::CHUNKS_TOTAL]; r.c[SF::CHUNKS_DONE] = s.c[S::CHUNKS_DONE]; r.c[SF::CHUNK_SIZE] = s.c[S::CHUNK_SIZE]; r.c[SF::FAILED_AT] = Cell::i(now()); r.c[SF::FAILED_CHUNK_ID] = Cell::i(0); r.c[SF::OTEL_TRACE_CARRIER] = tx(s.c[S::OTEL_TRACE_CARRIER]); d.submissions_failed[0] = r;
        let mut f = Row::NULLS; f.live = true; f.c[CF::SUBMISSION_ID] = s.c[S::ID]; f.c[CF::CHUNK_INDEX] = Cell::i(0); f.c[CF::FAILURE] = Cell::text(&[]); f.c[CF::FAILED_AT] = Cell::i(now()); f.c[CF::SKIPPED] = Cell::i(0); d.chunks_failed[0] = f;
    }
    if to == 2 { let mut r = Row::NULLS; r.live = true; r.c[SX::ID] = s.c[S::ID]; r.c[SX::PREFIX] = s.c[S::PREFIX]; r.c[SX::CHUNKS_TOTAL] = s.c[S::CHUNKS_TOTAL]; r.c[SX::CHUNKS_DONE] = s.c[S::CHUNKS_DONE]; r.c[SX::CANCELLED_AT] = Cell::i(now()); d.submissions_cancelled[0] = r; }
    rt::written();
    note();
}
fn moving(to: u8) -> Is {
    let pre = sym_pin(Cfg { s: 1, c: 1, ..NONE }, true, false);
    unsafe { NEXT = to; }
    note();
    unsafe { rt::INTERFERE = Some(writer); }
    let (is, _) = status(&pre, ID);
    unsafe { rt::INTERFERE = None; }
    assert!(is != Is::Err, "P09 asking for the status of a submission that moves on fails");
    assert!(is != Is::None, "P09 a submission that moves on while being looked up is reported as unknown");
    assert!(unsafe { SEEN[is as usize] }, "P09 a state is reported that the submission never was in");
    is
}

// ------------------------------------------------------------------ lookups
fn lookup_prefix(p: &str) -> Result<Option<i64>, ()> { block_on(async { let q = rpool(); let mut c = q.reader_conn().await.unwrap(); match submission::db::lookup_id_by_prefix(p, &mut c).await { Ok(x) => Ok(x.map(i64::from)), Err(_) => Err(()) } }) }
fn has_prefix(d: &Db, id: i64, p: Cell) -> bool {
    (match sub(d, id) { Some(r) => r.c[S::PREFIX] == p, None => false }) || (match completed(d, id) { Some(r) => r.c[SC::PREFIX] == p, None => false })
    || (match failed(d, id) { Some(r) => r.c[SF::PREFIX] == p, None => false }) || (match cancelled(d, id) { Some(r) => r.c[SX::PREFIX] == p, None => false })
}
fn matches(d: &Db, id: i64, n: usize, k: &[Cell; 2], v: &[i64; 2]) -> bool {
    let mut ok = sub(d, id).is_some();
    for i in 0..2 { if i < n { ok &= meta(d, id, k[i]) == Cell::i(v[i]); } }
    ok
}
fn lookup_meta(cfg: Cfg, n: usize) -> (usize, bool) {
    let pre = sym(cfg);
    let max = id63() as u64; assume(max > 0 && max < i64::MAX as u64);
    let mut map = StrategicMetadataMap::default();
    let mut k = [Cell::NULL; 2]; let mut v = [0; 2];
    for i in 0..2 { if i < n { let (t, tc) = char1(); let x = vsym::sparse(); if i == 1 { assume(tc != k[0]); } k[i] = tc; v[i] = x; map.push_unchecked(t, x); } }
    let lim = MaxSubmissions::new(std::num::NonZero::new(max).unwrap());
    let Ok(lim) = lim else { panic!("P12 a valid limit is refused") };
    let r = block_on(async { let q = rpool(); let mut c = q.reader_conn().await.unwrap(); submission::db::lookup_ids_by_strategic_metadata(map, lim, &mut c).await });
    let mut total = 0u64;
    for i in 0..rt::CAP_SUBMISSIONS { if pre.submissions[i].live && matches(&pre, pre.submissions[i].c[S::ID].v, n, &k, &v) { total += 1; } }
    match r {
        Err(E::L(_)) => { assert!(false, "P12 a lookup by metadata failed"); (0, true) }
        Err(E::R(_)) => { assert!(total > max, "P12 a lookup within the limit is refused"); (total as usize, true) }
        Ok(ids) => {
            assert!(total <= max, "P12 a lookup above the limit is not refused");
            assert!(ids.len() as u64 == total, "P12 a matching submission is missing or listed twice");
            for i in 0..rt::CAP_SUBMISSIONS { if i < ids.len() {
                let id = i64::from(ids[i]);
                assert!(matches(&pre, id, n, &k, &v), "P12 a submission is listed that does not match");
                if i > 0 { assert!(i64::from(ids[i - 1]) < id, "P12 matching submissions are not listed in order"); }
            } }
            (total as usize, false)
        }
    }
}
harnesses! {
    status_live(11) { let r = status_case(Cfg { s: 1, c: 1, m: 2, ..NONE }); witness!(r == Is::Live, "in progress"); witness!(r == Is::None, "unknown"); }
    status_completed(11) { let r = status_case(Cfg { sc: 1, m: 2, ..NONE }); witness!(r == Is::Completed, "completed"); }
    status_failed(11) { let r = status_case(Cfg { sf: 1, cf: 2, m: 2, ..NONE }); witness!(r == Is::Failed, "failed"); }
    status_cancelled(11) { let r = status_case(Cfg { sx: 1, m: 2, ..NONE }); witness!(r == Is::Cancelled, "cancelled"); }
    moving_completed(11) { let r = moving(0); witness!(r == Is::Completed, "seen completed"); witness!(r == Is::Live, "seen in progress"); }
    moving_failed(11) { let r = moving(1); witness!(r == Is::Failed, "seen failed"); witness!(r == Is::Live, "seen in progress"); }
    moving_cancelled(11) { let r = moving(2); witness!(r == Is::Cancelled, "seen cancelled"); witness!(r == Is::Live, "seen in progress"); }
    prefix(11) {
        let pre = sym(Cfg { s: 2, sc: 2, sf: 1, sx: 1, c: 2, cc: 0, cf: 1, m: 0 });
        let (p, pc) = text1();
        let r = lookup_prefix(&p);
        let x = id63();
        match r {
            Err(_) => assert!(false, "P11 looking up a prefix failed"),
            Ok(Some(id)) => { assert!(has_prefix(&pre, id, pc), "P11 the submission found does not have the prefix"); }
            Ok(None) => { assert!(!has_prefix(&pre, x, pc) || cancelled(&pre, x).is_some(), "P11 an existing submission is not found by its prefix"); }
        }
        witness!(r == Ok(None), "nothing found"); witness!(r == Ok(Some(x)) && failed(&pre, x).is_some(), "a failed one found"); witness!(r == Ok(Some(x)) && sub(&pre, x).is_some(), "an in-progress one found");
    }
    meta_none(11) { let (n, refused) = lookup_meta(Cfg { s: 3, sc: 1, ..NONE }, 0); witness!(n == 3 && !refused, "all listed"); witness!(refused, "refused"); }
    meta_one(11) { let (n, refused) = lookup_meta(Cfg { s: 2, m: 2, ..NONE }, 1); witness!(n == 2 && !refused, "two listed"); witness!(n == 0, "none listed"); witness!(refused, "refused"); }
    meta_two(20) { let (n, refused) = lookup_meta(Cfg { s: 2, m: 3, ..NONE }, 2); witness!(n == 1 && !refused, "one listed"); witness!(n == 0, "none listed"); }
}
