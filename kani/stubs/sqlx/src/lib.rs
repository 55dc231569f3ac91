//! Stand-in for sqlx + SQLite. Static queries are compiled from their SQL text (see sqlx-vmacros,
//! vlib/sqlgen.py) to code over bounded tables; transactions are snapshots; every statement, begin
//! and commit may fail with an injected error. Natively (counterexample replay) the same SQL text
//! is executed by a real SQLite when VERIF_SQLITE is set.
#![allow(static_mut_refs, clippy::all)]
pub use sqlx_vmacros::{FromRow, migrate, query, query_as, query_scalar};
pub use ::chrono;
use std::marker::PhantomData;
use futures_core::future::BoxFuture; //@async

pub mod rt;
pub mod builder;
pub use builder::{QueryBuilder, Separated};

pub mod encode { #[derive(Debug, PartialEq, Eq)] pub enum IsNull { Yes, No } }
pub mod error { #[derive(Debug)] pub struct BoxDynError(());
    impl<E: std::error::Error> From<E> for BoxDynError { fn from(_e: E) -> Self { BoxDynError(()) } }
    pub use super::Error; }
pub use error::BoxDynError as BoxDynError_;

#[derive(Debug)]
#[non_exhaustive]
pub enum Error {
    RowNotFound,
    /// an injected I/O or lock failure
    Fault,
    /// UNIQUE / NOT NULL constraint
    Constraint,
    PoolTimedOut,
    PoolClosed,
    WorkerCrashed,
    Protocol(String),
    Decode(error::BoxDynError),
}
impl std::fmt::Display for Error { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("sqlx error") } }
impl std::error::Error for Error {}
pub type Result<T, E = Error> = std::result::Result<T, E>;

pub trait Database: 'static + Sized { type ArgumentBuffer; type ValueRef<'r>; type TypeInfo; type Connection; type Row; }
#[derive(Debug, Clone, Copy)]
pub struct Sqlite;
pub struct ArgBuf { pub cell: rt::Cell }
#[derive(Clone, Copy)]
pub struct SqliteValueRef<'r> { pub cell: rt::Cell, _p: PhantomData<&'r ()> }
#[derive(Debug, Clone, PartialEq, Eq)]
pub struct SqliteTypeInfo;
impl Database for Sqlite { type ArgumentBuffer = ArgBuf; type ValueRef<'r> = SqliteValueRef<'r>; type TypeInfo = SqliteTypeInfo; type Connection = SqliteConnection; type Row = rt::DynRow; }
pub use SqliteTypeInfo as TypeInfo_;

pub trait Encode<'q, DB: Database> {
    fn encode_by_ref(&self, buf: &mut DB::ArgumentBuffer) -> std::result::Result<encode::IsNull, error::BoxDynError>;
    fn encode(self, buf: &mut DB::ArgumentBuffer) -> std::result::Result<encode::IsNull, error::BoxDynError> where Self: Sized { self.encode_by_ref(buf) }
    fn produces(&self) -> Option<DB::TypeInfo> { None }
    fn size_hint(&self) -> usize { 8 }
}
pub trait Decode<'r, DB: Database>: Sized { fn decode(value: DB::ValueRef<'r>) -> std::result::Result<Self, error::BoxDynError>; }
pub trait Type<DB: Database> { fn type_info() -> DB::TypeInfo; fn compatible(_ty: &DB::TypeInfo) -> bool { true } }

impl<'r> SqliteValueRef<'r> { pub fn new(cell: rt::Cell) -> Self { SqliteValueRef { cell, _p: PhantomData } } }

macro_rules! int { ($($t:ty),*) => { $(
    impl<'q> Encode<'q, Sqlite> for $t { fn encode_by_ref(&self, b: &mut ArgBuf) -> std::result::Result<encode::IsNull, error::BoxDynError> { b.cell = rt::Cell::i(*self as i64); Ok(encode::IsNull::No) } }
    impl Type<Sqlite> for $t { fn type_info() -> SqliteTypeInfo { SqliteTypeInfo } }
)* } }
int!(i64, i32, i16, i8, u32, u16, u8, bool, usize, u64);
macro_rules! idec { ($($t:ty),*) => { $(
    impl<'r> Decode<'r, Sqlite> for $t { fn decode(v: SqliteValueRef<'r>) -> std::result::Result<Self, error::BoxDynError> { let x = if v.cell.null { 0 } else { v.cell.v }; Ok(x as $t) } }
)* } }
idec!(i64, i32, i16, i8, u32, u16, u8, f64);
impl<'r> Decode<'r, Sqlite> for u64 { fn decode(v: SqliteValueRef<'r>) -> std::result::Result<Self, error::BoxDynError> { let x = if v.cell.null { 0 } else { v.cell.v }; match u64::try_from(x) { Ok(y) => Ok(y), Err(e) => Err(e.into()) } } }
impl<'r> Decode<'r, Sqlite> for bool { fn decode(v: SqliteValueRef<'r>) -> std::result::Result<Self, error::BoxDynError> { Ok(!v.cell.null && v.cell.v != 0) } }
impl<'r> Decode<'r, Sqlite> for String { fn decode(v: SqliteValueRef<'r>) -> std::result::Result<Self, error::BoxDynError> { Ok(unsafe { String::from_utf8_unchecked(rt::unpack(v.cell)) }) } }
impl<'r> Decode<'r, Sqlite> for Vec<u8> { fn decode(v: SqliteValueRef<'r>) -> std::result::Result<Self, error::BoxDynError> { Ok(rt::unpack(v.cell)) } }
impl<'r, T: Decode<'r, Sqlite>> Decode<'r, Sqlite> for Option<T> { fn decode(v: SqliteValueRef<'r>) -> std::result::Result<Self, error::BoxDynError> { if v.cell.null { Ok(None) } else { Ok(Some(T::decode(v)?)) } } }
impl<'r> Decode<'r, Sqlite> for chrono::DateTime<chrono::Utc> { fn decode(v: SqliteValueRef<'r>) -> std::result::Result<Self, error::BoxDynError> { Ok(chrono::at(v.cell.v)) } }

impl<'q> Encode<'q, Sqlite> for f64 { fn encode_by_ref(&self, b: &mut ArgBuf) -> std::result::Result<encode::IsNull, error::BoxDynError> { b.cell = rt::Cell::i(*self as i64); Ok(encode::IsNull::No) } }
impl<'q> Encode<'q, Sqlite> for String { fn encode_by_ref(&self, b: &mut ArgBuf) -> std::result::Result<encode::IsNull, error::BoxDynError> { b.cell = rt::Cell::text(self.as_bytes()); Ok(encode::IsNull::No) } }
impl<'q> Encode<'q, Sqlite> for str { fn encode_by_ref(&self, b: &mut ArgBuf) -> std::result::Result<encode::IsNull, error::BoxDynError> { b.cell = rt::Cell::text(self.as_bytes()); Ok(encode::IsNull::No) } }
impl<'q> Encode<'q, Sqlite> for Vec<u8> { fn encode_by_ref(&self, b: &mut ArgBuf) -> std::result::Result<encode::IsNull, error::BoxDynError> { b.cell = rt::Cell::blob(self); Ok(encode::IsNull::No) } }
impl<'q> Encode<'q, Sqlite> for [u8] { fn encode_by_ref(&self, b: &mut ArgBuf) -> std::result::Result<encode::IsNull, error::BoxDynError> { b.cell = rt::Cell::blob(self); Ok(encode::IsNull::No) } }
impl<'q, T: Encode<'q, Sqlite>> Encode<'q, Sqlite> for Option<T> { fn encode_by_ref(&self, b: &mut ArgBuf) -> std::result::Result<encode::IsNull, error::BoxDynError> { match self { None => { b.cell = rt::Cell::NULL; Ok(encode::IsNull::Yes) } Some(x) => x.encode_by_ref(b) } } }
impl<'q, T: Encode<'q, Sqlite> + ?Sized> Encode<'q, Sqlite> for &T { fn encode_by_ref(&self, b: &mut ArgBuf) -> std::result::Result<encode::IsNull, error::BoxDynError> { (**self).encode_by_ref(b) } }
impl<'q> Encode<'q, Sqlite> for chrono::DateTime<chrono::Utc> { fn encode_by_ref(&self, b: &mut ArgBuf) -> std::result::Result<encode::IsNull, error::BoxDynError> { b.cell = rt::Cell::i(self.ms); Ok(encode::IsNull::No) } }
macro_rules! ty { ($($t:ty),*) => { $( impl Type<Sqlite> for $t { fn type_info() -> SqliteTypeInfo { SqliteTypeInfo } } )* } }
ty!(f64, String, str, Vec<u8>, [u8], chrono::DateTime<chrono::Utc>);
impl<T: Type<Sqlite>> Type<Sqlite> for Option<T> { fn type_info() -> SqliteTypeInfo { SqliteTypeInfo } }
impl<T: Type<Sqlite> + ?Sized> Type<Sqlite> for &T { fn type_info() -> SqliteTypeInfo { SqliteTypeInfo } }

pub mod types { #[derive(Debug, Clone, PartialEq, Eq)] pub struct Json<T>(pub T); impl<T> std::ops::Deref for Json<T> { type Target = T; fn deref(&self) -> &T { &self.0 } } }
pub trait FromRow: Sized { fn from_row(r: &rt::DynRow) -> Result<Self>; }
impl<A: for<'r> Decode<'r, Sqlite>> FromRow for (A,) { fn from_row(r: &rt::DynRow) -> Result<Self> { Ok((r.at(0)?,)) } }
impl<A: for<'r> Decode<'r, Sqlite>, B: for<'r> Decode<'r, Sqlite>> FromRow for (A, B) { fn from_row(r: &rt::DynRow) -> Result<Self> { Ok((r.at(0)?, r.at(1)?)) } }
impl<A: for<'r> Decode<'r, Sqlite>, B: for<'r> Decode<'r, Sqlite>, C: for<'r> Decode<'r, Sqlite>> FromRow for (A, B, C) { fn from_row(r: &rt::DynRow) -> Result<Self> { Ok((r.at(0)?, r.at(1)?, r.at(2)?)) } }

// ---------------------------------------------------------------- connections
#[derive(Debug)]
pub struct SqliteConnection(());
impl SqliteConnection { pub const fn new() -> Self { SqliteConnection(()) } }
pub mod pool {
    use super::*;
    #[derive(Debug)]
    pub struct PoolConnection<DB>(pub SqliteConnection, PhantomData<DB>);
    impl PoolConnection<Sqlite> { pub fn new() -> Self { PoolConnection(SqliteConnection::new(), PhantomData) } }
    impl std::ops::Deref for PoolConnection<Sqlite> { type Target = SqliteConnection; fn deref(&self) -> &SqliteConnection { &self.0 } }
    impl std::ops::DerefMut for PoolConnection<Sqlite> { fn deref_mut(&mut self) -> &mut SqliteConnection { &mut self.0 } }
    #[derive(Debug)]
    pub struct Pool<DB>(PhantomData<DB>);
    impl<DB> Clone for Pool<DB> { fn clone(&self) -> Self { Pool(PhantomData) } }
    impl Pool<Sqlite> {
        pub fn model() -> Self { Pool(PhantomData) }
        pub async fn connect(_url: &str) -> Result<Self> { Ok(Pool(PhantomData)) }
        pub async fn acquire(&self) -> Result<PoolConnection<Sqlite>> { rt::fault()?; Ok(PoolConnection::new()) }
        pub async fn begin(&self) -> Result<Transaction<'static, Sqlite>> { Transaction::begin() }
        pub async fn close(&self) {}
    }
}
pub type SqlitePool = pool::Pool<Sqlite>;
pub use pool::Pool;

pub struct Transaction<'c, DB> { open: bool, conn: SqliteConnection, _p: PhantomData<(&'c mut (), DB)> }
impl<'c> Transaction<'c, Sqlite> {
    pub fn begin() -> Result<Self> { rt::begin()?; Ok(Transaction { open: true, conn: SqliteConnection::new(), _p: PhantomData }) }
    pub async fn commit(mut self) -> Result<()> { rt::commit()?; self.open = false; Ok(()) }
    pub async fn rollback(mut self) -> Result<()> { self.open = false; rt::rollback(); Ok(()) }
}
impl<'c, DB> Drop for Transaction<'c, DB> { fn drop(&mut self) { if self.open { rt::rollback(); } } }
impl<'c> std::ops::Deref for Transaction<'c, Sqlite> { type Target = SqliteConnection; fn deref(&self) -> &SqliteConnection { &self.conn } }
impl<'c> std::ops::DerefMut for Transaction<'c, Sqlite> { fn deref_mut(&mut self) -> &mut SqliteConnection { &mut self.conn } }
pub type SqliteTransaction<'c> = Transaction<'c, Sqlite>;

pub trait Connection: Send {
    type Database: Database;
    #[allow(async_fn_in_trait)]
    async fn begin(&mut self) -> Result<Transaction<'_, Sqlite>>;
    #[allow(async_fn_in_trait)]
    async fn transaction<'a, F, R, E>(&'a mut self, callback: F) -> std::result::Result<R, E>
    where for<'c> F: FnOnce(&'c mut Transaction<'_, Sqlite>) -> BoxFuture<'c, std::result::Result<R, E>> + 'a + Send + Sync, Self: Sized, R: Send, E: From<Error> + Send;
    #[allow(async_fn_in_trait)]
    async fn ping(&mut self) -> Result<()> { Ok(()) }
}
impl Connection for SqliteConnection {
    type Database = Sqlite;
    async fn begin(&mut self) -> Result<Transaction<'_, Sqlite>> { Transaction::begin() }
    async fn transaction<'a, F, R, E>(&'a mut self, callback: F) -> std::result::Result<R, E>
    where for<'c> F: FnOnce(&'c mut Transaction<'_, Sqlite>) -> BoxFuture<'c, std::result::Result<R, E>> + 'a + Send + Sync, Self: Sized, R: Send, E: From<Error> + Send {
        let mut tx = Transaction::begin()?;
        match callback(&mut tx).await {
            Ok(r) => { tx.commit().await?; Ok(r) }
            Err(e) => { tx.rollback().await?; Err(e) }
        }
    }
}
impl SqliteConnection { pub async fn lock_handle(&mut self) -> Result<sqlite::LockedSqliteHandle> { Ok(sqlite::LockedSqliteHandle) } }
pub trait Acquire {}
pub trait Executor: Sized { }
impl Executor for &mut SqliteConnection {}
impl Executor for &mut pool::PoolConnection<Sqlite> {}
impl Executor for &SqlitePool {}
pub use Executor as SqliteExecutor;

pub mod sqlite {
    use super::*;
    pub use super::{SqliteConnection, SqlitePool, SqliteTransaction};
    pub struct LockedSqliteHandle;
    impl LockedSqliteHandle { pub fn as_raw_handle(&mut self) -> std::ptr::NonNull<u8> { std::ptr::NonNull::dangling() } }
    pub struct SqliteQueryResult { pub n: u64 }
    impl SqliteQueryResult { pub fn rows_affected(&self) -> u64 { self.n } pub fn last_insert_rowid(&self) -> i64 { 0 } }
    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub enum SqliteJournalMode { Delete, Truncate, Persist, Memory, Wal, Off }
    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub enum SqliteSynchronous { Off, Normal, Full, Extra }
    pub static mut OPT_SYNC: SqliteSynchronous = SqliteSynchronous::Full;
    pub static mut OPT_JOURNAL: SqliteJournalMode = SqliteJournalMode::Delete;
    pub static mut OPT_MAX: u32 = 10;
    #[derive(Clone, Debug)]
    pub struct SqliteConnectOptions { pub journal: SqliteJournalMode, pub sync: SqliteSynchronous, pub read_only: bool, pub fk: bool }
    impl SqliteConnectOptions {
        pub fn new() -> Self { SqliteConnectOptions { journal: SqliteJournalMode::Wal, sync: SqliteSynchronous::Full, read_only: false, fk: true } }
        pub fn filename(self, _f: impl AsRef<std::path::Path>) -> Self { self }
        pub fn journal_mode(mut self, m: SqliteJournalMode) -> Self { self.journal = m; self }
        pub fn synchronous(mut self, m: SqliteSynchronous) -> Self { self.sync = m; self }
        pub fn busy_timeout(self, _d: std::time::Duration) -> Self { self }
        pub fn foreign_keys(mut self, b: bool) -> Self { self.fk = b; self }
        pub fn create_if_missing(self, _b: bool) -> Self { self }
        pub fn read_only(mut self, b: bool) -> Self { self.read_only = b; self }
        pub fn immutable(self, _b: bool) -> Self { self }
        pub fn pragma<K: Into<String>, V: Into<String>>(self, _k: K, _v: V) -> Self { self }
        pub fn optimize_on_close(self, _b: bool, _n: impl Into<Option<u32>>) -> Self { self }
    }
    impl Default for SqliteConnectOptions { fn default() -> Self { Self::new() } }
    pub struct SqlitePoolOptions { pub max: u32, pub min: u32 }
    impl SqlitePoolOptions {
        pub fn new() -> Self { SqlitePoolOptions { max: 10, min: 0 } }
        pub fn min_connections(mut self, n: u32) -> Self { self.min = n; self }
        pub fn max_connections(mut self, n: u32) -> Self { self.max = n; self }
        pub fn acquire_timeout(self, _d: std::time::Duration) -> Self { self }
        pub fn idle_timeout(self, _d: impl Into<Option<std::time::Duration>>) -> Self { self }
        pub fn max_lifetime(self, _d: impl Into<Option<std::time::Duration>>) -> Self { self }
        pub fn test_before_acquire(self, _b: bool) -> Self { self }
        pub async fn connect_with(self, o: SqliteConnectOptions) -> Result<SqlitePool> { unsafe { OPT_SYNC = o.sync; OPT_JOURNAL = o.journal; OPT_MAX = self.max; } Ok(SqlitePool::model()) }
    }
}
pub mod migrate {
    use super::*;
    #[derive(Debug)]
    pub struct MigrateError;
    pub trait MigrateDatabase { #[allow(async_fn_in_trait)] async fn database_exists(_u: &str) -> Result<bool> { Ok(true) } #[allow(async_fn_in_trait)] async fn create_database(_u: &str) -> Result<()> { Ok(()) } }
    impl MigrateDatabase for Sqlite {}
    pub struct Migrator;
    impl Migrator { pub const fn new() -> Self { Migrator } pub fn set_ignore_missing(&mut self, _b: bool) -> &mut Self { self } pub fn set_locking(&mut self, _b: bool) -> &mut Self { self } pub async fn run<T>(&self, _t: T) -> std::result::Result<(), MigrateError> { Ok(()) } }
}
pub fn query_as<'q, DB: Database, O>(_sql: &'q str) -> builder::DynQueryAs<O, DB> { builder::DynQueryAs::opaque() }
pub fn query_scalar<'q, DB: Database, O>(_sql: &'q str) -> builder::DynQueryScalar<O, DB> { builder::DynQueryScalar::opaque() }
pub fn query<'q, DB: Database>(_sql: &'q str) -> builder::DynQuery { builder::DynQuery::opaque() }

/// decode one column; a value which the repository's types reject ends the (symbolic) path with a failure
#[macro_export]
macro_rules! vdec { ($t:ty, $e:expr) => {{
    $crate::rt::must($crate::rt::dec::<$t, _>($e)) //@sync
    $crate::rt::dec::<$t, _>($e)? //@async
}} }

pub use sqlx_vmacros::vformat;
pub mod show {
    pub struct W<'a, T: ?Sized>(pub &'a T);
    pub trait Fast { fn show(&self, s: &mut String); }
    pub trait Slow { fn show(&self, s: &mut String); }
    impl<'a> Fast for W<'a, str> { fn show(&self, s: &mut String) { s.push_str(self.0) } }
    impl<'a, 'b> Fast for W<'a, &'b str> { fn show(&self, s: &mut String) { s.push_str(self.0) } }
    impl<'a> Fast for W<'a, String> { fn show(&self, s: &mut String) { s.push_str(self.0) } }
    impl<'a, 'b> Fast for W<'a, &'b String> { fn show(&self, s: &mut String) { s.push_str(self.0) } }
    macro_rules! int { ($($t:ty),*) => { $( impl<'a> Fast for W<'a, $t> { fn show(&self, s: &mut String) { let v = *self.0 as i128; if v >= 0 && v < 10 { s.push_str(DIGITS[v as usize]); } else { use std::fmt::Write; let _ = write!(s, "{}", v); } } } )* } }
    const DIGITS: [&str; 10] = ["0", "1", "2", "3", "4", "5", "6", "7", "8", "9"];
    int!(u8, u16, u32, u64, usize, i32, i64);
    impl<'a, 'b, T: std::fmt::Display + ?Sized> Slow for &'b W<'a, T> { fn show(&self, s: &mut String) { use std::fmt::Write; let _ = write!(s, "{}", self.0); } }
}
