//! Symbolic database states, the representation invariant, and per-submission views.
use sqlx::rt::{self, Cell, Db, Row};
use vsym::assume;
use crate::common::{chunk, submission};
pub use rt::{col_submissions as S, col_submissions_completed as SC, col_submissions_failed as SF, col_submissions_cancelled as SX, col_chunks as C, col_chunks_completed as CC, col_chunks_failed as CF, col_submissions_metadata as M};

#[macro_export]
macro_rules! harnesses {
    ($($(#[$m:meta])* $name:ident($u:literal) $body:block)*) => {
        $( #[cfg_attr(kani, kani::proof)] #[cfg_attr(kani, kani::unwind($u))] pub fn $name() $body )*
        pub fn dispatch(n: &str) -> bool { match n { $( stringify!($name) => { $name(); true } )* _ => false } }
    };
}

pub struct Cfg { pub s: usize, pub sc: usize, pub sf: usize, pub sx: usize, pub c: usize, pub cc: usize, pub cf: usize, pub m: usize }
pub const NONE: Cfg = Cfg { s: 0, sc: 0, sf: 0, sx: 0, c: 0, cc: 0, cf: 0, m: 0 };

fn cell(r: &Cell, v: i64) -> bool { !r.null && r.v == v }
pub fn n_sub(d: &Db, id: i64) -> u8 { let mut n = 0; for r in 0..rt::CAP_SUBMISSIONS { n += (d.submissions[r].live && cell(&d.submissions[r].c[S::ID], id)) as u8; } n }
pub fn n_sc(d: &Db, id: i64) -> u8 { let mut n = 0; for r in 0..rt::CAP_SUBMISSIONS_COMPLETED { n += (d.submissions_completed[r].live && cell(&d.submissions_completed[r].c[SC::ID], id)) as u8; } n }
pub fn n_sf(d: &Db, id: i64) -> u8 { let mut n = 0; for r in 0..rt::CAP_SUBMISSIONS_FAILED { n += (d.submissions_failed[r].live && cell(&d.submissions_failed[r].c[SF::ID], id)) as u8; } n }
pub fn n_sx(d: &Db, id: i64) -> u8 { let mut n = 0; for r in 0..rt::CAP_SUBMISSIONS_CANCELLED { n += (d.submissions_cancelled[r].live && cell(&d.submissions_cancelled[r].c[SX::ID], id)) as u8; } n }
pub fn states(d: &Db, id: i64) -> u8 { n_sub(d, id) + n_sc(d, id) + n_sf(d, id) + n_sx(d, id) }
pub fn sub(d: &Db, id: i64) -> Option<Row<{ rt::CAPC_SUBMISSIONS }>> { let mut o = None; for r in 0..rt::CAP_SUBMISSIONS { if d.submissions[r].live && cell(&d.submissions[r].c[S::ID], id) { o = Some(d.submissions[r]); } } o }
pub fn completed(d: &Db, id: i64) -> Option<Row<{ rt::CAPC_SUBMISSIONS_COMPLETED }>> { let mut o = None; for r in 0..rt::CAP_SUBMISSIONS_COMPLETED { if d.submissions_completed[r].live && cell(&d.submissions_completed[r].c[SC::ID], id) { o = Some(d.submissions_completed[r]); } } o }
pub fn failed(d: &Db, id: i64) -> Option<Row<{ rt::CAPC_SUBMISSIONS_FAILED }>> { let mut o = None; for r in 0..rt::CAP_SUBMISSIONS_FAILED { if d.submissions_failed[r].live && cell(&d.submissions_failed[r].c[SF::ID], id) { o = Some(d.submissions_failed[r]); } } o }
pub fn cancelled(d: &Db, id: i64) -> Option<Row<{ rt::CAPC_SUBMISSIONS_CANCELLED }>> { let mut o = None; for r in 0..rt::CAP_SUBMISSIONS_CANCELLED { if d.submissions_cancelled[r].live && cell(&d.submissions_cancelled[r].c[SX::ID], id) { o = Some(d.submissions_cancelled[r]); } } o }
pub fn pending(d: &Db, id: i64) -> i64 { let mut n = 0; for r in 0..rt::CAP_CHUNKS { n += (d.chunks[r].live && cell(&d.chunks[r].c[C::SUBMISSION_ID], id)) as i64; } n }
pub fn chunk_(d: &Db, id: i64, ix: i64) -> Option<Row<{ rt::CAPC_CHUNKS }>> { let mut o = None; for r in 0..rt::CAP_CHUNKS { if d.chunks[r].live && cell(&d.chunks[r].c[C::SUBMISSION_ID], id) && cell(&d.chunks[r].c[C::CHUNK_INDEX], ix) { o = Some(d.chunks[r]); } } o }
pub fn chunk_done(d: &Db, id: i64, ix: i64) -> Option<Row<{ rt::CAPC_CHUNKS_COMPLETED }>> { let mut o = None; for r in 0..rt::CAP_CHUNKS_COMPLETED { if d.chunks_completed[r].live && cell(&d.chunks_completed[r].c[CC::SUBMISSION_ID], id) && cell(&d.chunks_completed[r].c[CC::CHUNK_INDEX], ix) { o = Some(d.chunks_completed[r]); } } o }
pub fn chunk_fail(d: &Db, id: i64, ix: i64) -> Option<Row<{ rt::CAPC_CHUNKS_FAILED }>> { let mut o = None; for r in 0..rt::CAP_CHUNKS_FAILED { if d.chunks_failed[r].live && cell(&d.chunks_failed[r].c[CF::SUBMISSION_ID], id) && cell(&d.chunks_failed[r].c[CF::CHUNK_INDEX], ix) { o = Some(d.chunks_failed[r]); } } o }
pub fn places(d: &Db, id: i64, ix: i64) -> u8 {
    let mut n = 0;
    for r in 0..rt::CAP_CHUNKS { n += (d.chunks[r].live && cell(&d.chunks[r].c[C::SUBMISSION_ID], id) && cell(&d.chunks[r].c[C::CHUNK_INDEX], ix)) as u8; }
    for r in 0..rt::CAP_CHUNKS_COMPLETED { n += (d.chunks_completed[r].live && cell(&d.chunks_completed[r].c[CC::SUBMISSION_ID], id) && cell(&d.chunks_completed[r].c[CC::CHUNK_INDEX], ix)) as u8; }
    for r in 0..rt::CAP_CHUNKS_FAILED { n += (d.chunks_failed[r].live && cell(&d.chunks_failed[r].c[CF::SUBMISSION_ID], id) && cell(&d.chunks_failed[r].c[CF::CHUNK_INDEX], ix)) as u8; }
    n
}
/// number of live rows mentioning the id anywhere
pub fn rows_of(d: &Db, id: i64) -> u8 {
    let mut n = states(d, id) + pending(d, id) as u8;
    for r in 0..rt::CAP_CHUNKS_COMPLETED { n += (d.chunks_completed[r].live && cell(&d.chunks_completed[r].c[CC::SUBMISSION_ID], id)) as u8; }
    for r in 0..rt::CAP_CHUNKS_FAILED { n += (d.chunks_failed[r].live && cell(&d.chunks_failed[r].c[CF::SUBMISSION_ID], id)) as u8; }
    for r in 0..rt::CAP_SUBMISSIONS_METADATA { n += (d.submissions_metadata[r].live && cell(&d.submissions_metadata[r].c[M::SUBMISSION_ID], id)) as u8; }
    n
}

// ---- the invariant, split by the guarantee it carries
/// every submission is in exactly one state
pub fn inv_states(d: &Db) -> bool {
    let mut ok = true;
    for r in 0..rt::CAP_SUBMISSIONS { if d.submissions[r].live { ok &= states(d, d.submissions[r].c[S::ID].v) == 1; } }
    for r in 0..rt::CAP_SUBMISSIONS_COMPLETED { if d.submissions_completed[r].live { ok &= states(d, d.submissions_completed[r].c[SC::ID].v) == 1; } }
    for r in 0..rt::CAP_SUBMISSIONS_FAILED { if d.submissions_failed[r].live { ok &= states(d, d.submissions_failed[r].c[SF::ID].v) == 1; } }
    for r in 0..rt::CAP_SUBMISSIONS_CANCELLED { if d.submissions_cancelled[r].live { ok &= states(d, d.submissions_cancelled[r].c[SX::ID].v) == 1; } }
    ok
}
/// progress counts match: done + waiting = total; an in-progress submission with nothing waiting is empty
pub fn inv_counts(d: &Db) -> bool {
    let mut ok = true;
    for r in 0..rt::CAP_SUBMISSIONS { if d.submissions[r].live {
        let (t, n) = (d.submissions[r].c[S::CHUNKS_TOTAL].v, d.submissions[r].c[S::CHUNKS_DONE].v);
        let p = pending(d, d.submissions[r].c[S::ID].v);
        ok &= n >= 0 && t >= n && t - n == p && (p > 0 || t == 0);
    } }
    ok
}
/// waiting chunks belong to in-progress submissions, in range, and every chunk is in one place only
pub fn inv_chunks(d: &Db) -> bool {
    let mut ok = true;
    for r in 0..rt::CAP_CHUNKS { if d.chunks[r].live {
        let (id, ix) = (d.chunks[r].c[C::SUBMISSION_ID].v, d.chunks[r].c[C::CHUNK_INDEX].v);
        ok &= ix >= 0 && d.chunks[r].c[C::RETRIES].v >= 0 && places(d, id, ix) == 1;
        match sub(d, id) { Some(s) => ok &= ix < s.c[S::CHUNKS_TOTAL].v, None => ok = false }
    } }
    for r in 0..rt::CAP_CHUNKS_COMPLETED { if d.chunks_completed[r].live { ok &= places(d, d.chunks_completed[r].c[CC::SUBMISSION_ID].v, d.chunks_completed[r].c[CC::CHUNK_INDEX].v) == 1; } }
    for r in 0..rt::CAP_CHUNKS_FAILED { if d.chunks_failed[r].live { ok &= places(d, d.chunks_failed[r].c[CF::SUBMISSION_ID].v, d.chunks_failed[r].c[CF::CHUNK_INDEX].v) == 1 && n_sub(d, d.chunks_failed[r].c[CF::SUBMISSION_ID].v) == 0; } }
    ok
}
/// value ranges the system writes
pub fn inv_ranges(d: &Db) -> bool {
    let mut ok = true;
    for r in 0..rt::CAP_SUBMISSIONS { if d.submissions[r].live { ok &= d.submissions[r].c[S::ID].v >= 0 && (d.submissions[r].c[S::CHUNK_SIZE].null || d.submissions[r].c[S::CHUNK_SIZE].v > 0); } }
    for r in 0..rt::CAP_SUBMISSIONS_COMPLETED { if d.submissions_completed[r].live { let x = &d.submissions_completed[r].c; ok &= x[SC::ID].v >= 0 && x[SC::CHUNKS_TOTAL].v >= 0; } }
    for r in 0..rt::CAP_SUBMISSIONS_FAILED { if d.submissions_failed[r].live { let x = &d.submissions_failed[r].c; ok &= x[SF::ID].v >= 0 && x[SF::CHUNKS_TOTAL].v >= 0 && x[SF::CHUNKS_DONE].v >= 0 && x[SF::FAILED_CHUNK_ID].v >= 0; } }
    for r in 0..rt::CAP_SUBMISSIONS_CANCELLED { if d.submissions_cancelled[r].live { let x = &d.submissions_cancelled[r].c; ok &= x[SX::ID].v >= 0 && x[SX::CHUNKS_TOTAL].v >= 0 && x[SX::CHUNKS_DONE].v >= 0; } }
    for r in 0..rt::CAP_CHUNKS_COMPLETED { if d.chunks_completed[r].live { ok &= d.chunks_completed[r].c[CC::SUBMISSION_ID].v >= 0 && d.chunks_completed[r].c[CC::CHUNK_INDEX].v >= 0; } }
    for r in 0..rt::CAP_CHUNKS_FAILED { if d.chunks_failed[r].live { let x = &d.chunks_failed[r].c; ok &= x[CF::SUBMISSION_ID].v >= 0 && x[CF::CHUNK_INDEX].v >= 0 && (x[CF::SKIPPED].v == 0 || x[CF::SKIPPED].v == 1); } }
    for r in 0..rt::CAP_SUBMISSIONS_METADATA { if d.submissions_metadata[r].live { ok &= d.submissions_metadata[r].c[M::SUBMISSION_ID].v >= 0; } }
    ok
}
/// a failed submission names the chunk that failed, which is kept at least as long
pub fn inv_failed(d: &Db) -> bool {
    let mut ok = true;
    for r in 0..rt::CAP_SUBMISSIONS_FAILED { let x = d.submissions_failed[r]; if x.live { ok &= match chunk_fail(d, x.c[SF::ID].v, x.c[SF::FAILED_CHUNK_ID].v) { Some(f) => f.c[CF::FAILED_AT].v >= x.c[SF::FAILED_AT].v && f.c[CF::SKIPPED].v == 0, None => false }; } }
    ok
}
pub fn inv(d: &Db) -> bool { inv_states(d) && inv_counts(d) && inv_chunks(d) && inv_ranges(d) && inv_failed(d) }

/// any database satisfying the invariant, with at most the given numbers of rows
pub fn sym(c: Cfg) -> Db { sym_pin(c, false, false) }
/// the id of the submission an operation is applied to, where a harness fixes it
pub const ID: i64 = 0x0300_0005_0000_0009;
pub const IX: i64 = 0x0000_0003_0000_0002;
/// ... where the first in-progress submission is ID (and the first waiting chunk is its chunk IX)
pub fn sym_pin(c: Cfg, pin: bool, pin_chunk: bool) -> Db {
    let mut d = Db::EMPTY;
    d.submissions = rt::sym_submissions(c.s);
    d.submissions_completed = rt::sym_submissions_completed(c.sc);
    d.submissions_failed = rt::sym_submissions_failed(c.sf);
    d.submissions_cancelled = rt::sym_submissions_cancelled(c.sx);
    d.chunks = rt::sym_chunks(c.c);
    d.chunks_completed = rt::sym_chunks_completed(c.cc);
    d.chunks_failed = rt::sym_chunks_failed(c.cf);
    d.submissions_metadata = rt::sym_submissions_metadata(c.m);
    if pin { assume(d.submissions[0].live); d.submissions[0].live = true; d.submissions[0].c[S::ID] = Cell::i(ID); }
    if pin_chunk { assume(d.chunks[0].live); d.chunks[0].live = true; d.chunks[0].c[C::SUBMISSION_ID] = Cell::i(ID); d.chunks[0].c[C::CHUNK_INDEX] = Cell::i(IX); }
    assume(inv(&d));
    rt::install(d);
    unsafe { chrono::NOW = vsym::u32_() as i64; }
    *rt::db()
}
pub fn now() -> i64 { unsafe { chrono::NOW } }
pub fn id63() -> i64 { let x = vsym::sparse(); assume(x >= 0); x }
pub fn sid(x: i64) -> submission::SubmissionId { submission::SubmissionId::from(ux::u63::new(x as u64)) }
pub fn cix(x: i64) -> chunk::ChunkIndex { chunk::ChunkIndex::from(ux::u63::new(x as u64)) }
pub fn cid(s: i64, c: i64) -> chunk::ChunkId { chunk::ChunkId { submission_id: sid(s), chunk_index: cix(c) } }
pub fn blob1() -> (Vec<u8>, Cell) { let c = rt::sym_blob(); (rt::unpack(c), c) }
pub fn text1() -> (String, Cell) { let c = rt::sym_text(); (unsafe { String::from_utf8_unchecked(rt::unpack(c)) }, c) }
/// one symbolic character (a length the solver need not guess keeps the copies of the text simple)
pub fn char1() -> (String, Cell) { let b = vsym::u8_(); vsym::assume(b > 0 && b < 128); let v: Vec<u8> = std::vec![b]; let c = Cell::text(&v); (unsafe { String::from_utf8_unchecked(v) }, c) }
pub fn oblob() -> (Option<Vec<u8>>, Cell) { if vsym::bool_() { let (v, c) = blob1(); (Some(v), c) } else { (None, Cell::NULL) } }
pub fn otext() -> (Option<String>, Cell) { if vsym::bool_() { let (v, c) = text1(); (Some(v), c) } else { (None, Cell::NULL) } }
pub fn wpool() -> crate::db::WriterPool { crate::db::Pool::new(sqlx::SqlitePool::model()) }
pub fn rpool() -> crate::db::ReaderPool { crate::db::Pool::new(sqlx::SqlitePool::model()) }

// ---- relations between a state before and a state after
/// the in-progress row, terminal rows, chunks and metadata of `id` are the same in both
pub fn same_submission(a: &Db, b: &Db, id: i64) -> bool {
    let mut ok = sub(a, id) == sub(b, id) && completed(a, id) == completed(b, id) && failed(a, id) == failed(b, id) && cancelled(a, id) == cancelled(b, id) && states(a, id) == states(b, id);
    ok && same_chunks(a, b, id) && same_meta(a, b, id)
}
pub fn same_chunks(a: &Db, b: &Db, id: i64) -> bool {
    let mut ok = pending(a, id) == pending(b, id);
    for r in 0..rt::CAP_CHUNKS { let x = a.chunks[r]; if x.live && x.c[C::SUBMISSION_ID].v == id { ok &= chunk_(b, id, x.c[C::CHUNK_INDEX].v) == Some(x); } }
    ok && same_done_chunks(a, b, id)
}
/// completed and failed chunks of `id`
pub fn same_done_chunks(a: &Db, b: &Db, id: i64) -> bool {
    let mut ok = true;
    for r in 0..rt::CAP_CHUNKS_COMPLETED {
        let x = a.chunks_completed[r]; if x.live && x.c[CC::SUBMISSION_ID].v == id { ok &= chunk_done(b, id, x.c[CC::CHUNK_INDEX].v) == Some(x); }
        let x = b.chunks_completed[r]; if x.live && x.c[CC::SUBMISSION_ID].v == id { ok &= chunk_done(a, id, x.c[CC::CHUNK_INDEX].v) == Some(x); }
    }
    for r in 0..rt::CAP_CHUNKS_FAILED {
        let x = a.chunks_failed[r]; if x.live && x.c[CF::SUBMISSION_ID].v == id { ok &= chunk_fail(b, id, x.c[CF::CHUNK_INDEX].v) == Some(x); }
        let x = b.chunks_failed[r]; if x.live && x.c[CF::SUBMISSION_ID].v == id { ok &= chunk_fail(a, id, x.c[CF::CHUNK_INDEX].v) == Some(x); }
    }
    ok
}
pub fn meta(d: &Db, id: i64, k: Cell) -> Cell { let mut o = Cell::NULL; for r in 0..rt::CAP_SUBMISSIONS_METADATA { let x = d.submissions_metadata[r]; if x.live && x.c[M::SUBMISSION_ID].v == id && x.c[M::METADATA_KEY] == k { o = x.c[M::METADATA_VALUE]; } } o }
pub fn same_meta(a: &Db, b: &Db, id: i64) -> bool {
    let mut ok = true;
    for r in 0..rt::CAP_SUBMISSIONS_METADATA {
        let x = a.submissions_metadata[r]; if x.live && x.c[M::SUBMISSION_ID].v == id { ok &= meta(b, id, x.c[M::METADATA_KEY]) == x.c[M::METADATA_VALUE]; }
        let x = b.submissions_metadata[r]; if x.live && x.c[M::SUBMISSION_ID].v == id { ok &= meta(a, id, x.c[M::METADATA_KEY]) == x.c[M::METADATA_VALUE]; }
    }
    ok
}
/// equal as sets of rows, for every submission (uses an arbitrary probe id: universally quantified by the solver)
pub fn same_db(a: &Db, b: &Db) -> bool { let p = id63(); same_submission(a, b, p) }
/// chunks that were finished or waiting are still somewhere (an arbitrary probe)
pub fn conserved(a: &Db, b: &Db, id: i64, ix: i64) -> bool {
    let (pa, pb) = (places(a, id, ix), places(b, id, ix));
    let was_done = chunk_done(a, id, ix); let was_failed = chunk_fail(a, id, ix);
    pa == pb && pb <= 1
        && (was_done.is_none() || chunk_done(b, id, ix) == was_done)
        && (was_failed.is_none() || chunk_fail(b, id, ix) == was_failed)
}
