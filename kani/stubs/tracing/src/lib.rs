//! Stand-in: logging and spans have no effect. Arguments are type-checked but not evaluated.
pub use tracing_vmacros::instrument;
#[macro_export] macro_rules! event { ($($t:tt)*) => {{ }}; }
#[macro_export] macro_rules! trace { ($($t:tt)*) => {{ }}; }
#[macro_export] macro_rules! debug { ($($t:tt)*) => {{ }}; }
#[macro_export] macro_rules! info { ($($t:tt)*) => {{ }}; }
#[macro_export] macro_rules! warn { ($($t:tt)*) => {{ }}; }
#[macro_export] macro_rules! error { ($($t:tt)*) => {{ }}; }
#[macro_export] macro_rules! span { ($($t:tt)*) => { $crate::Span }; }
#[macro_export] macro_rules! info_span { ($($t:tt)*) => { $crate::Span }; }
#[macro_export] macro_rules! debug_span { ($($t:tt)*) => { $crate::Span }; }
#[macro_export] macro_rules! trace_span { ($($t:tt)*) => { $crate::Span }; }
#[macro_export] macro_rules! warn_span { ($($t:tt)*) => { $crate::Span }; }
#[macro_export] macro_rules! error_span { ($($t:tt)*) => { $crate::Span }; }
#[derive(Clone, Debug)]
pub struct Span;
pub struct Entered<'a>(&'a Span);
impl Span { pub fn current() -> Span { Span } pub fn none() -> Span { Span } pub fn enter(&self) -> Entered<'_> { Entered(self) } pub fn in_scope<T, F: FnOnce() -> T>(&self, f: F) -> T { f() } pub fn record<Q: ?Sized, V>(&self, _q: &Q, _v: V) -> &Self { self } }
pub trait Instrument: Sized { fn instrument(self, _s: Span) -> Self { self } fn in_current_span(self) -> Self { self } }
impl<T: Sized> Instrument for T {}
pub enum Level { TRACE, DEBUG, INFO, WARN, ERROR }
