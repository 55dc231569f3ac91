//! QueryBuilder. Under Kani only the total text length and the bound values are kept; the plan for
//! the text is looked up by (length, number of binds) among the plans compiled from the texts which
//! the real builder code produced natively (see dynplans.rs).
use crate::*;
use crate::rt::{Cell, DynRow, RowBuf};
const MAXBIND: usize = if cfg!(kani) { 24 } else { 4096 };
pub struct QueryBuilder<DB> { pub len: usize, #[cfg(not(kani))] pub text: String, pub a: [Cell; MAXBIND], pub n: usize, _p: PhantomData<DB> }
pub trait SqlText { fn put<DB>(self, q: &mut QueryBuilder<DB>); }
impl SqlText for &str { fn put<DB>(self, q: &mut QueryBuilder<DB>) { q.lit(self) } }
impl SqlText for &&str { fn put<DB>(self, q: &mut QueryBuilder<DB>) { q.lit(self) } }
impl SqlText for String { fn put<DB>(self, q: &mut QueryBuilder<DB>) { q.lit(&self) } }
impl SqlText for &String { fn put<DB>(self, q: &mut QueryBuilder<DB>) { q.lit(self) } }
impl SqlText for std::borrow::Cow<'_, str> { fn put<DB>(self, q: &mut QueryBuilder<DB>) { q.lit(&self) } }
macro_rules! num { ($($t:ty),*) => { $( impl SqlText for $t { fn put<DB>(self, q: &mut QueryBuilder<DB>) { let mut s = String::with_capacity(24); { use crate::show::Fast; crate::show::W(&(self as u64)).show(&mut s); } q.lit(&s) } } )* } }
num!(u8, u16, u32, u64, usize, i32, i64);
impl SqlText for char { fn put<DB>(self, q: &mut QueryBuilder<DB>) { let mut b = [0u8; 4]; q.lit(self.encode_utf8(&mut b)) } }
impl<DB> QueryBuilder<DB> {
    pub fn new(s: impl Into<String>) -> Self { let s: String = s.into(); QueryBuilder { len: s.len(), #[cfg(not(kani))] text: s, a: [Cell::NULL; MAXBIND], n: 0, _p: PhantomData } }
    fn lit(&mut self, s: &str) { self.len += s.len(); #[cfg(not(kani))] self.text.push_str(s); }
    pub fn push(&mut self, s: impl SqlText) -> &mut Self { s.put(self); self }
    pub fn push_bind<T: for<'q> Encode<'q, Sqlite>>(&mut self, x: T) -> &mut Self { self.lit("?"); assert!(self.n < MAXBIND, "VERIF-MODEL: too many binds"); self.a[self.n] = rt::enc(&x); self.n += 1; self }
    pub fn separated<Sep: AsRef<str>>(&mut self, sep: Sep) -> Separated<'_, DB, Sep> { Separated { q: self, sep, first: true } }
    pub fn push_values<I, F>(&mut self, it: I, mut f: F) -> &mut Self where I: IntoIterator, F: FnMut(Separated<'_, DB, &'static str>, I::Item) {
        self.lit("VALUES ");
        let mut first = true;
        for x in it { if !first { self.lit(", "); } first = false; self.lit("("); f(Separated { q: self, sep: ", ", first: true }, x); self.lit(")"); }
        self
    }
    pub fn build(&mut self) -> DynQuery { DynQuery { len: self.len, a: self.a, n: self.n, #[cfg(not(kani))] text: self.text.clone(), opaque: false } }
    pub fn build_query_as<O: FromRow>(&mut self) -> DynQueryAs<O> { DynQueryAs { q: self.build(), _p: PhantomData } }
    pub fn build_query_scalar<O>(&mut self) -> DynQueryScalar<O> { DynQueryScalar { q: self.build(), _p: PhantomData } }
    pub fn reset(&mut self) -> &mut Self { self }
    #[cfg(not(kani))]
    pub fn sql(&self) -> &str { &self.text }
    #[cfg(kani)]
    pub fn sql(&self) -> &str { "" }
}
pub struct Separated<'a, DB, Sep> { q: &'a mut QueryBuilder<DB>, sep: Sep, first: bool }
impl<'a, DB, Sep: AsRef<str>> Separated<'a, DB, Sep> {
    fn s(&mut self) { if !self.first { self.q.lit(self.sep.as_ref()); } self.first = false; }
    pub fn push_bind<T: for<'q> Encode<'q, Sqlite>>(&mut self, x: T) -> &mut Self { self.s(); self.q.push_bind(x); self }
    pub fn push(&mut self, x: impl SqlText) -> &mut Self { self.s(); self.q.push(x); self }
    pub fn push_unseparated(&mut self, x: impl SqlText) -> &mut Self { self.q.push(x); self }
    pub fn push_bind_unseparated<T: for<'q> Encode<'q, Sqlite>>(&mut self, x: T) -> &mut Self { self.q.push_bind(x); self }
}
pub struct DynQuery { len: usize, a: [Cell; MAXBIND], n: usize, #[cfg(not(kani))] text: String, opaque: bool }
pub const DYNCAP: usize = 4;
impl DynQuery {
    pub fn opaque() -> Self { DynQuery { len: 0, a: [Cell::NULL; MAXBIND], n: 0, #[cfg(not(kani))] text: String::new(), opaque: true } }
    fn go(&self, one: bool, out: &mut RowBuf<DynRow, DYNCAP>) -> Result<u64> {
        if self.opaque { rt::step(rt::db())?; return Ok(0); }
        #[cfg(not(kani))]
        {
            if std::env::var("VERIF_RECORD").is_ok() { println!("VERIF-SQL {} {:?}", self.n, self.text); return Ok(0); }
            if rt::native::on() { return rt::native::run(&self.text, &self.a[..self.n], one, out); }
        }
        rt::script(); out.one = one;
        let r = rt::dyn_run(self.len, self.n, rt::db(), &self.a, one, out);
        if r.is_ok() { rt::stmt_end(); }
        r
    }
    pub async fn execute<X: Executor>(self, _c: X) -> Result<sqlite::SqliteQueryResult> { let mut b = RowBuf::new(); let n = self.go(false, &mut b)?; Ok(sqlite::SqliteQueryResult { n }) }
}
pub struct DynQueryAs<O, DB = Sqlite> { q: DynQuery, _p: PhantomData<(O, DB)> }
impl<O, DB> DynQueryAs<O, DB> { pub fn opaque() -> Self { DynQueryAs { q: DynQuery::opaque(), _p: PhantomData } } }
impl<O: FromRow> DynQueryAs<O> {
    pub async fn fetch_all<X: Executor>(self, _c: X) -> Result<Vec<O>> { let mut b = RowBuf::new(); self.q.go(false, &mut b)?; let mut v = Vec::with_capacity(DYNCAP); for i in 0..DYNCAP { if i < b.len { v.push(O::from_row(&b.r[i])?); } } Ok(v) }
    pub async fn fetch_one<X: Executor>(self, _c: X) -> Result<O> { let mut b = RowBuf::new(); self.q.go(true, &mut b)?; if b.len == 0 && !self.q.opaque { Err(Error::RowNotFound) } else { O::from_row(&b.r[0]) } }
    pub async fn fetch_optional<X: Executor>(self, _c: X) -> Result<Option<O>> { let mut b = RowBuf::new(); self.q.go(true, &mut b)?; if b.len == 0 { Ok(None) } else { O::from_row(&b.r[0]).map(Some) } }
    pub fn fetch<'e, X: Executor>(self, _c: X) -> rt::Rows<DynRow, O, DYNCAP> { let mut b = RowBuf::new(); let r = self.q.go(false, &mut b); rt::rows(r.err(), b, |x| O::from_row(&x)) }
    pub fn bind<T: for<'q> Encode<'q, Sqlite>>(mut self, x: T) -> Self { self.q.a[self.q.n] = rt::enc(&x); self.q.n += 1; self }
}
pub struct DynQueryScalar<O, DB = Sqlite> { q: DynQuery, _p: PhantomData<(O, DB)> }
impl<O, DB> DynQueryScalar<O, DB> { pub fn opaque() -> Self { DynQueryScalar { q: DynQuery::opaque(), _p: PhantomData } } }
impl<O: for<'r> Decode<'r, Sqlite>> DynQueryScalar<O> {
    pub async fn fetch_all<X: Executor>(self, _c: X) -> Result<Vec<O>> { let mut b = RowBuf::new(); self.q.go(false, &mut b)?; let mut v = Vec::with_capacity(DYNCAP); for i in 0..DYNCAP { if i < b.len { v.push(b.r[i].at(0)?); } } Ok(v) }
    pub async fn fetch_one<X: Executor>(self, _c: X) -> Result<O> { let mut b = RowBuf::new(); self.q.go(true, &mut b)?; if b.len == 0 && !self.q.opaque { Err(Error::RowNotFound) } else { b.r[0].at(0) } }
    pub async fn fetch_optional<X: Executor>(self, _c: X) -> Result<Option<O>> { let mut b = RowBuf::new(); self.q.go(true, &mut b)?; if b.len == 0 { Ok(None) } else { b.r[0].at(0).map(Some) } }
    pub fn bind<T: for<'q> Encode<'q, Sqlite>>(mut self, x: T) -> Self { self.q.a[self.q.n] = rt::enc(&x); self.q.n += 1; self }
}
