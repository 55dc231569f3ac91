//! Runtime of the SQLite stand-in.
use crate::*;
pub use vsym;

/// A value: NULL or a 64-bit integer. Text and blobs of at most 6 bytes are packed
/// (bytes from bit 48 down, length in the low byte), longer ones are represented by a hash.
#[derive(Clone, Copy)]
pub struct Cell { pub null: bool, pub v: i64, #[cfg(not(kani))] pub t: u8 }
impl std::fmt::Debug for Cell { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { if self.null { f.write_str("NULL") } else { write!(f, "{}", self.v) } } }
impl PartialEq for Cell { fn eq(&self, o: &Cell) -> bool { self.null == o.null && (self.null || self.v == o.v) } }
impl Eq for Cell {}
impl Cell {
    pub const NULL: Cell = Cell { null: true, v: 0, #[cfg(not(kani))] t: 0 };
    pub const fn i(v: i64) -> Cell { Cell { null: false, v, #[cfg(not(kani))] t: 0 } }
    pub const fn b(b: bool) -> Cell { Cell::i(b as i64) }
    pub fn text(b: &[u8]) -> Cell { Cell { null: false, v: pack(b), #[cfg(not(kani))] t: 1 } }
    pub fn blob(b: &[u8]) -> Cell { Cell { null: false, v: pack(b), #[cfg(not(kani))] t: 2 } }
}
#[cfg(not(kani))]
pub static LONG: std::sync::Mutex<Vec<(i64, Vec<u8>)>> = std::sync::Mutex::new(Vec::new());
pub fn pack(b: &[u8]) -> i64 {
    let n = b.len();
    if n > 6 {
        #[cfg(kani)]
        { return (1 << 62) | ((n as i64) << 8) | 0xff; }
        #[cfg(not(kani))]
        {
            let mut h: u64 = 1469598103934665603;
            for x in b { h = (h ^ *x as u64).wrapping_mul(1099511628211); }
            let k = ((h & ((1 << 55) - 1)) | (1 << 62)) as i64;
            LONG.lock().unwrap().push((k, b.to_vec()));
            return k;
        }
    }
    let g = |i: usize| -> i64 { if i < n { (b[i] as i64) << (48 - 8 * i) } else { 0 } };
    n as i64 | g(0) | g(1) | g(2) | g(3) | g(4) | g(5)
}
pub fn unpack(c: Cell) -> Vec<u8> {
    if c.null { return Vec::new(); }
    #[cfg(not(kani))]
    if c.v & (1 << 62) != 0 { return LONG.lock().unwrap().iter().find(|x| x.0 == c.v).map(|x| x.1.clone()).unwrap_or_default(); }
    let n = (c.v & 0xff) as usize;
    assert!(n <= 6, "VERIF-MODEL: text value out of the model's range");
    let mut v: Vec<u8> = Vec::with_capacity(8);
    unsafe {
        let p = v.as_mut_ptr();
        *p = (c.v >> 48) as u8; *p.add(1) = (c.v >> 40) as u8; *p.add(2) = (c.v >> 32) as u8;
        *p.add(3) = (c.v >> 24) as u8; *p.add(4) = (c.v >> 16) as u8; *p.add(5) = (c.v >> 8) as u8;
        v.set_len(n);
    }
    v
}

const MAXMETA: usize = @MAPCAP@;
#[derive(Clone, Copy)]
pub struct JMap { n: usize, k: [Cell; MAXMETA], v: [Cell; MAXMETA] }
impl JMap {
    pub const EMPTY: JMap = JMap { n: 0, k: [Cell::NULL; MAXMETA], v: [Cell::NULL; MAXMETA] };
    pub fn push(&mut self, k: Cell, v: Cell) { assert!(self.n < MAXMETA, "VERIF-MODEL: json object capacity"); self.k[self.n] = k; self.v[self.n] = v; self.n += 1; }
}
pub trait FromJMap { fn from_jmap(m: JMap) -> std::result::Result<Self, error::BoxDynError> where Self: Sized; }
impl FromJMap for rustc_hash::FxHashMap<String, i64> {
    fn from_jmap(m: JMap) -> std::result::Result<Self, error::BoxDynError> {
        let mut out = Self::default();
        for i in 0..MAXMETA { if i < m.n { out.push_unchecked(unsafe { String::from_utf8_unchecked(unpack(m.k[i])) }, m.v[i].v); } }
        Ok(out)
    }
}

#[derive(Clone, Copy)]
pub struct Row<const N: usize> { pub live: bool, pub c: [Cell; N] }
impl<const N: usize> Row<N> { pub const EMPTY: Self = Row { live: false, c: [Cell::NULL; N] }; pub const NULLS: Self = Row { live: false, c: [Cell::NULL; N] }; }
impl<const N: usize> PartialEq for Row<N> { fn eq(&self, o: &Self) -> bool { if self.live != o.live { return false; } if !self.live { return true; } let mut r = true; for i in 0..N { r &= self.c[i] == o.c[i]; } r } }
impl<const N: usize> Eq for Row<N> {}

pub fn sym_text() -> Cell { let b = vsym::u8_(); vsym::assume(b < 128); let mut c = Cell::text(&[]); if b != 0 { c.v = ((b as i64) << 48) | 1; } c }
pub fn sym_blob() -> Cell { let b = vsym::u8_(); let mut c = Cell::blob(&[]); if b != 0 { c.v = ((b as i64) << 48) | 1; } c }
pub fn sym_time() -> Cell { let b = vsym::u32_(); Cell::i(b as i64) }
include!(concat!(env!("VERIF_GEN"), "/schema.rs"));

/// first field of every record: gives Option/Result around a record a discriminant independent of its columns
#[derive(Debug, Clone, Copy)]
#[repr(u64)]
pub enum Tag { A = 0, B = 1 }
pub trait OutRow: Copy { const EMPTY: Self; fn from_vals(v: &[Val]) -> Self; }
pub struct RowBuf<T, const N: usize> { pub len: usize, pub r: [T; N], pub one: bool }
impl<T: OutRow, const N: usize> RowBuf<T, N> { pub fn new() -> Self { RowBuf { len: 0, r: [T::EMPTY; N], one: false } } pub fn push(&mut self, x: T) { if self.one && self.len > 0 { return; } assert!(self.len < N, "VERIF-MODEL: result capacity"); self.r[self.len] = x; self.len += 1; } }

/// Rows with sort keys.
pub struct SortBuf<const NC: usize, const NK: usize, const CAP: usize> { pub len: usize, r: [[Cell; NC]; CAP], k: [[Cell; NK]; CAP], skip: usize, take: usize }
impl<const NC: usize, const NK: usize, const CAP: usize> SortBuf<NC, NK, CAP> {
    pub fn new() -> Self { SortBuf { len: 0, r: [[Cell::NULL; NC]; CAP], k: [[Cell::NULL; NK]; CAP], skip: 0, take: CAP } }
    pub fn push(&mut self, r: [Cell; NC], k: [Cell; NK]) { self.r[self.len] = r; self.k[self.len] = k; self.len += 1; }
    pub fn push_distinct(&mut self, r: [Cell; NC], k: [Cell; NK]) { let mut dup = false; for i in 0..CAP { if i < self.len { let mut e = true; for j in 0..NC { e &= self.r[i][j] == r[j]; } dup |= e; } } if !dup { self.push(r, k) } }
    fn before(a: &[Cell; NK], b: &[Cell; NK], dirs: &[(bool, bool)]) -> bool {
        for j in 0..NK {
            if a[j] != b[j] {
                let lt = if a[j].null { true } else if b[j].null { false } else { a[j].v < b[j].v };
                return lt != dirs[j].0;
            }
        }
        false
    }
    pub fn sort(&mut self, dirs: &[(bool, bool)]) {
        // stable bubble sort (bounded)
        for i in 0..CAP { for j in 0..CAP { if j + 1 < CAP - i && j + 1 < self.len && Self::before(&self.k[j + 1], &self.k[j], dirs) { let t = self.r[j]; self.r[j] = self.r[j + 1]; self.r[j + 1] = t; let t = self.k[j]; self.k[j] = self.k[j + 1]; self.k[j + 1] = t; } } }
    }
    pub fn limit(&mut self, lim: Cell, off: Cell) { self.take = if lim.v < 0 { CAP } else if lim.v as u64 > CAP as u64 { CAP } else { lim.v as usize }; self.skip = if off.v < 0 { 0 } else if off.v as u64 > CAP as u64 { CAP } else { off.v as usize }; }
    pub fn keep(&self, i: usize) -> bool { i < self.len && i >= self.skip && i - self.skip < self.take }
    pub fn row(&self, i: usize) -> [Cell; NC] { self.r[i] }
}
#[derive(Clone, Copy)]
pub struct Agg { n: i64, s: i64, mx: Cell, mn: Cell }
impl Agg {
    pub fn new() -> Agg { Agg { n: 0, s: 0, mx: Cell::NULL, mn: Cell::NULL } }
    pub fn add(&mut self, c: Cell) { if !c.null { self.n += 1; self.s = self.s.wrapping_add(c.v); if self.mx.null || c.v > self.mx.v { self.mx = c; } if self.mn.null || c.v < self.mn.v { self.mn = c; } } }
    pub fn count(&self) -> Cell { Cell::i(self.n) }
    pub fn sum(&self) -> Cell { if self.n == 0 { Cell::NULL } else { Cell::i(self.s) } }
    pub fn total(&self) -> Cell { Cell::i(self.s) }
    pub fn max(&self) -> Cell { self.mx }
    pub fn min(&self) -> Cell { self.mn }
}
macro_rules! cmp { ($($f:ident $o:tt),*) => { $( #[inline] pub fn $f(a: Cell, b: Cell) -> Cell { if a.null || b.null { Cell::NULL } else { Cell::b(a.v $o b.v) } } )* } }
cmp!(eq ==, ne !=, lt <, le <=, gt >, ge >=);
macro_rules! ar { ($($f:ident $m:ident),*) => { $( #[inline] pub fn $f(a: Cell, b: Cell) -> Cell { if a.null || b.null { Cell::NULL } else { Cell::i(a.v.$m(b.v)) } } )* } }
ar!(add wrapping_add, sub wrapping_sub, mul wrapping_mul);
pub fn div(a: Cell, b: Cell) -> Cell { if a.null || b.null || b.v == 0 { Cell::NULL } else { Cell::i(a.v.wrapping_div(b.v)) } }
pub fn rem(a: Cell, b: Cell) -> Cell { if a.null || b.null || b.v == 0 { Cell::NULL } else { Cell::i(a.v.wrapping_rem(b.v)) } }
pub fn band(a: Cell, b: Cell) -> Cell { if a.null || b.null { Cell::NULL } else { Cell::i(a.v & b.v) } }
pub fn bor(a: Cell, b: Cell) -> Cell { if a.null || b.null { Cell::NULL } else { Cell::i(a.v | b.v) } }
pub fn shl(a: Cell, b: Cell) -> Cell { if a.null || b.null { Cell::NULL } else if b.v >= 0 { Cell::i(if b.v > 63 { 0 } else { a.v << b.v }) } else { Cell::i(if b.v < -63 { a.v >> 63 } else { a.v >> -b.v }) } }
pub fn shr(a: Cell, b: Cell) -> Cell { if a.null || b.null { Cell::NULL } else if b.v >= 0 { Cell::i(if b.v > 63 { a.v >> 63 } else { a.v >> b.v }) } else { Cell::i(if b.v < -63 { 0 } else { a.v << -b.v }) } }
pub fn truthy(a: Cell) -> bool { !a.null && a.v != 0 }
pub fn and(a: Cell, b: Cell) -> Cell { if (!a.null && a.v == 0) || (!b.null && b.v == 0) { Cell::i(0) } else if a.null || b.null { Cell::NULL } else { Cell::i(1) } }
pub fn or(a: Cell, b: Cell) -> Cell { if truthy(a) || truthy(b) { Cell::i(1) } else if a.null || b.null { Cell::NULL } else { Cell::i(0) } }
pub fn not(a: Cell) -> Cell { if a.null { a } else { Cell::b(a.v == 0) } }
pub fn neg(a: Cell) -> Cell { if a.null { a } else { Cell::i(a.v.wrapping_neg()) } }
pub fn bnot(a: Cell) -> Cell { if a.null { a } else { Cell::i(!a.v) } }
pub fn abs(a: Cell) -> Cell { if a.null { a } else { Cell::i(a.v.wrapping_abs()) } }
pub fn isnull(a: Cell) -> Cell { Cell::b(a.null) }
pub fn notnull(a: Cell) -> Cell { Cell::b(!a.null) }
pub fn is(a: Cell, b: Cell) -> Cell { Cell::b(a == b) }
pub fn isnot(a: Cell, b: Cell) -> Cell { Cell::b(a != b) }
pub fn smax(a: Cell, b: Cell) -> Cell { if a.null || b.null { Cell::NULL } else if a.v >= b.v { a } else { b } }
pub fn smin(a: Cell, b: Cell) -> Cell { if a.null || b.null { Cell::NULL } else if a.v <= b.v { a } else { b } }

fn clash<const N: usize>(a: &Row<N>, b: &Row<N>, u: &[usize]) -> bool { let mut e = true; for j in u { e &= !a.c[*j].null && a.c[*j] == b.c[*j]; } e }
/// conflict: 0 abort, 1 ignore, 2 replace
pub fn insert_row<const N: usize, const C: usize>(t: &mut [Row<N>; C], r: Row<N>, nn: &[usize], uq: &[&[usize]], conflict: u8) -> Result<bool> {
    for j in nn { if r.c[*j].null { if conflict == 1 { return Ok(false); } return Err(Error::Constraint); } }
    let mut hit = false;
    for i in 0..C { if t[i].live { let mut h = false; for u in uq { h |= clash(&t[i], &r, u); } if h { if conflict == 2 { t[i].live = false; } else { hit = true; } } } }
    if hit { return if conflict == 1 { Ok(false) } else { Err(Error::Constraint) }; }
    for i in 0..C { if !t[i].live { t[i] = r; return Ok(true); } }
    capacity();
    Ok(true)
}
/// The bounded table is full: this path lies outside the stated bound.
pub fn capacity() { panic!("VERIF-MODEL: table capacity") }
pub fn check_table<const N: usize, const C: usize>(t: &[Row<N>; C], nn: &[usize], uq: &[&[usize]]) -> Result<()> {
    let mut bad = false;
    for i in 0..C { if t[i].live { for j in nn { bad |= t[i].c[*j].null; } for k in 0..C { if k < i && t[k].live { for u in uq { bad |= clash(&t[i], &t[k], u); } } } } }
    if bad { Err(Error::Constraint) } else { Ok(()) }
}

// ------------------------------------------------------------ global state
pub static mut DB: Db = Db::EMPTY;
/// what a crash now would leave on disk
pub static mut DURABLE: Db = Db::EMPTY;
static mut SAVES: [Db; 2] = [Db::EMPTY; 2];
pub static mut DEPTH: usize = 0;
pub static mut SAVEPOINTS: usize = 0;
/// number of injected failures still allowed
pub static mut FAULTS: u8 = 0;
pub static mut FAULTED: bool = false;
pub static mut COMMITS: u32 = 0;
pub static mut STATEMENTS: u32 = 0;
/// intermediate durable states (what a crash between two commits leaves)
pub static mut LOG: [Db; 2] = [Db::EMPTY; 2];
pub static mut INTERFERE: Option<fn()> = None;

pub fn fault() -> Result<()> { unsafe { if FAULTS > 0 && vsym::bool_() { FAULTS -= 1; FAULTED = true; return Err(Error::Fault); } } Ok(()) }
/// a harness changed the tables itself
pub fn written() { #[cfg(not(kani))] native::load(db()); durable(); }
fn durable() { unsafe { DURABLE = DB; if COMMITS < 2 { LOG[COMMITS as usize] = DB; } COMMITS += 1; } }
pub fn install(db: Db) { unsafe { DB = db; DURABLE = db; DEPTH = 0; } #[cfg(not(kani))] native::load(&db); }
pub fn db() -> &'static mut Db { unsafe { &mut DB } }
pub fn begin() -> Result<()> { unsafe { if DEPTH == 0 { interfere(); } fault()?; #[cfg(not(kani))] native::exec_tx("begin"); if DEPTH > 0 { SAVES[DEPTH - 1] = DB; } DEPTH += 1; } Ok(()) }
pub fn commit() -> Result<()> { unsafe { fault()?; #[cfg(not(kani))] native::exec_tx("commit"); DEPTH -= 1; if DEPTH == 0 { durable(); } } Ok(()) }
pub fn rollback() { unsafe { #[cfg(not(kani))] native::exec_tx("rollback"); DEPTH -= 1; DB = if DEPTH == 0 { DURABLE } else { SAVES[DEPTH - 1] }; } }
pub fn savepoint() { unsafe { if DEPTH == 0 { SAVEPOINTS += 1; DEPTH = 1; } } }
pub fn release() { unsafe { if SAVEPOINTS > 0 && DEPTH == 1 { SAVEPOINTS = 0; DEPTH = 0; durable(); } } }
fn interfere() { unsafe { if let Some(f) = INTERFERE { INTERFERE = None; f(); if INTERFERE.is_none() { INTERFERE = Some(f); } } } }
/// before every statement
pub fn step(_db: &mut Db) -> Result<()> { unsafe { if DEPTH == 0 { if IN_SCRIPT { durable(); } interfere(); } IN_SCRIPT = true; STATEMENTS += 1; } fault() }
static mut IN_SCRIPT: bool = false;
pub fn script() { unsafe { IN_SCRIPT = false; } }
pub fn stmt_end() { unsafe { if DEPTH == 0 { durable(); } } }
pub(crate) fn rows<O, R, const N: usize>(err: Option<Error>, b: RowBuf<O, N>, map: fn(O) -> Result<R>) -> Rows<O, R, N> { Rows { err, b, i: 0, map } }

#[derive(Clone, Debug, PartialEq)]
pub enum Val { Null, Int(i64), Text(Vec<u8>), Blob(Vec<u8>) }
impl Val { pub fn cell(&self) -> Cell { match self { Val::Null => Cell::NULL, Val::Int(i) => Cell::i(*i), Val::Text(b) => Cell::text(b), Val::Blob(b) => Cell::blob(b) } } }
pub trait From_ { fn from_val(v: &Val) -> Self; }
impl From_ for Cell { fn from_val(v: &Val) -> Cell { v.cell() } }
impl From_ for JMap {
    fn from_val(v: &Val) -> JMap {
        let mut m = JMap::EMPTY;
        #[cfg(not(kani))]
        if let Val::Text(t) = v { for (k, x) in native::json_pairs(t) { m.push(Cell::text(k.as_bytes()), Cell::i(x)); } }
        let _ = (&mut m, v);
        m
    }
}
pub fn enc<T: for<'q> Encode<'q, Sqlite> + ?Sized>(x: &T) -> Cell { let mut b = ArgBuf { cell: Cell::NULL }; match x.encode_by_ref(&mut b) { Ok(_) => b.cell, Err(_) => panic!("VERIF-MODEL: encode failed") } }
pub trait DecCol<C>: Sized { fn dec_col(c: C) -> Result<Self>; }
impl<T: for<'r> Decode<'r, Sqlite>> DecCol<Cell> for T { fn dec_col(c: Cell) -> Result<T> { match T::decode(SqliteValueRef::new(c)) { Ok(x) => Ok(x), Err(e) => Err(Error::Decode(e)) } } }
impl<M: FromJMap> DecCol<JMap> for types::Json<M> { fn dec_col(c: JMap) -> Result<Self> { match M::from_jmap(c) { Ok(x) => Ok(types::Json(x)), Err(e) => Err(Error::Decode(e)) } } }
impl<M: FromJMap> DecCol<JMap> for Option<types::Json<M>> { fn dec_col(c: JMap) -> Result<Self> { match M::from_jmap(c) { Ok(x) => Ok(Some(types::Json(x))), Err(e) => Err(Error::Decode(e)) } } }
pub fn must<T>(r: Result<T>) -> T { match r { Ok(x) => x, Err(_) => panic!("a stored value is rejected when it is read back") } }
pub fn dec<T: DecCol<C>, C>(c: C) -> Result<T> { T::dec_col(c) }

/// A row of a dynamically built query.
#[derive(Clone, Copy)]
pub struct DynRow { pub names: &'static [&'static str], pub c: [Cell; 6] }
impl DynRow {
    pub const EMPTY: DynRow = DynRow { names: &[], c: [Cell::NULL; 6] };
    pub fn of(names: &'static [&'static str], c: &[Cell]) -> DynRow { let mut r = DynRow { names, c: [Cell::NULL; 6] }; for i in 0..c.len() { r.c[i] = c[i]; } r }
    pub fn at<T: for<'r> Decode<'r, Sqlite>>(&self, i: usize) -> Result<T> { dec::<T, Cell>(self.c[i]) }
    pub fn get_named<T: for<'r> Decode<'r, Sqlite>>(&self, n: &str) -> Result<T> { for i in 0..self.names.len() { if self.names[i] == n { return self.at(i); } } Err(Error::Protocol(String::new())) }
}
impl OutRow for DynRow { const EMPTY: Self = DynRow::EMPTY; fn from_vals(v: &[Val]) -> Self { let mut r = DynRow::EMPTY; for i in 0..v.len() { r.c[i] = v[i].cell(); } r } }

pub struct Query<O, R, const A: usize, const N: usize> { a: [Cell; A], #[allow(dead_code)] sql: &'static str, run: fn(&mut Db, &[Cell], bool, &mut RowBuf<O, N>) -> Result<u64>, map: fn(O) -> Result<R> }
impl<O: OutRow, R, const A: usize, const N: usize> Query<O, R, A, N> {
    pub fn new(a: [Cell; A], sql: &'static str, run: fn(&mut Db, &[Cell], bool, &mut RowBuf<O, N>) -> Result<u64>, map: fn(O) -> Result<R>) -> Self { Query { a, sql, run, map } }
    fn go(&self, one: bool, out: &mut RowBuf<O, N>) -> Result<u64> {
        #[cfg(not(kani))]
        if native::on() { return native::run(self.sql, &self.a, one, out); }
        script(); out.one = one;
        let r = (self.run)(db(), &self.a, one, out);
        if r.is_ok() { stmt_end(); }
        r
    }
    pub async fn execute<X: Executor>(self, _c: X) -> Result<sqlite::SqliteQueryResult> { let mut b = RowBuf::new(); let n = self.go(false, &mut b)?; Ok(sqlite::SqliteQueryResult { n }) }
    pub async fn fetch_optional<X: Executor>(self, _c: X) -> Result<Option<R>> { let mut b = RowBuf::new(); self.go(true, &mut b)?; if b.len == 0 { Ok(None) } else { (self.map)(b.r[0]).map(Some) } }
    pub async fn fetch_one<X: Executor>(self, c: X) -> Result<R> { match self.fetch_optional(c).await? { Some(x) => Ok(x), None => Err(Error::RowNotFound) } }
    pub async fn fetch_all<X: Executor>(self, _c: X) -> Result<Vec<R>> { let mut b = RowBuf::new(); self.go(false, &mut b)?; let mut v = Vec::with_capacity(N); for i in 0..N { if i < b.len { v.push((self.map)(b.r[i])?); } } Ok(v) }
    pub fn fetch<'e, X: Executor>(self, _c: X) -> Rows<O, R, N> where O: 'e { let mut b = RowBuf::new(); let r = self.go(false, &mut b); Rows { err: r.err(), b, i: 0, map: self.map } }
    pub fn map<F>(self, _f: F) -> Self { panic!("VERIF-MODEL: Query::map") }
}
pub struct Rows<O, R, const N: usize> { err: Option<Error>, b: RowBuf<O, N>, i: usize, map: fn(O) -> Result<R> }
impl<O, R, const N: usize> Unpin for Rows<O, R, N> {} //@async
impl<O: OutRow, R, const N: usize> futures_core::Stream for Rows<O, R, N> { //@async
    type Item = Result<R>; //@async
    fn poll_next(mut self: std::pin::Pin<&mut Self>, _cx: &mut std::task::Context<'_>) -> std::task::Poll<Option<Result<R>>> { //@async
        if let Some(e) = self.err.take() { self.i = N; return std::task::Poll::Ready(Some(Err(e))); } //@async
        let i = self.i; //@async
        if i < N && i < self.b.len { self.i += 1; return std::task::Poll::Ready(Some((self.map)(self.b.r[i]))); } //@async
        std::task::Poll::Ready(None) //@async
    } //@async
} //@async
impl<O: OutRow, R, const N: usize> Iterator for Rows<O, R, N> { //@sync
    type Item = Result<R>; //@sync
    fn next(&mut self) -> Option<Result<R>> { //@sync
        if let Some(e) = self.err.take() { self.i = N; return Some(Err(e)); } //@sync
        let i = self.i; //@sync
        if i < N && i < self.b.len { self.i += 1; return Some((self.map)(self.b.r[i])); } //@sync
        None //@sync
    } //@sync
} //@sync

#[cfg(not(kani))]
pub mod native;
include!(concat!(env!("VERIF_GEN"), "/dynplans.rs"));
