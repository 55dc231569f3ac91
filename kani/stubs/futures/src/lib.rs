//! futures for sequentialised code (vlib/deasync.py): a future is its value, a stream is an iterator.
#![allow(unstable_name_collisions)]
pub mod future {
    pub struct BoxFuture; pub struct LocalBoxFuture;
    pub use super::{FutureExt, TryFutureExt};
    pub fn ready<T>(t: T) -> T { t }
    pub fn ok<T, E>(t: T) -> Result<T, E> { Ok(t) }
    pub fn err<T, E>(e: E) -> Result<T, E> { Err(e) }
    pub fn join_all<T, I: IntoIterator<Item = T>>(i: I) -> Vec<T> { i.into_iter().collect() }
    pub fn try_join_all<T, E, I: IntoIterator<Item = Result<T, E>>>(i: I) -> Result<Vec<T>, E> { i.into_iter().collect() }
}
pub trait FutureExt: Sized { fn boxed(self) -> Self { self } fn boxed_local(self) -> Self { self } fn then<U, F: FnOnce(Self) -> U>(self, f: F) -> U { f(self) } }
impl<T> FutureExt for T {}
pub trait TryFutureExt<T, E>: Sized { fn map_ok<U, F: FnOnce(T) -> U>(self, f: F) -> Result<U, E>; fn err_into<G: From<E>>(self) -> Result<T, G>; }
impl<T, E> TryFutureExt<T, E> for Result<T, E> { fn map_ok<U, F: FnOnce(T) -> U>(self, f: F) -> Result<U, E> { self.map(f) } fn err_into<G: From<E>>(self) -> Result<T, G> { match self { Ok(x) => Ok(x), Err(e) => Err(e.into()) } } }
pub use std::iter::Iterator as Stream;
pub use stream::{StreamExt, TryStreamExt};
pub trait SinkExt<T> {}
pub mod stream {
    pub use std::iter::Iterator as Stream;
    pub type BoxStream<'a, T> = Box<dyn Iterator<Item = T> + Send + 'a>;
    pub fn iter<I: IntoIterator>(i: I) -> I::IntoIter { i.into_iter() }
    pub fn empty<T>() -> std::iter::Empty<T> { std::iter::empty() }
    pub trait StreamExt: Iterator + Sized { fn then<U, F: FnMut(Self::Item) -> U>(self, f: F) -> std::iter::Map<Self, F> { self.map(f) } fn buffered(self, _n: usize) -> Self { self } fn boxed<'a>(self) -> BoxStream<'a, Self::Item> where Self: Send + 'a { Box::new(self) } }
    impl<I: Iterator> StreamExt for I {}
    pub struct TryFilterMap<I, F>(I, F);
    impl<I: Iterator<Item = Result<T, E>>, T, E, U, F: FnMut(T) -> Result<Option<U>, E>> Iterator for TryFilterMap<I, F> {
        type Item = Result<U, E>;
        fn next(&mut self) -> Option<Self::Item> { loop { match self.0.next() { None => return None, Some(Err(e)) => return Some(Err(e)), Some(Ok(x)) => match (self.1)(x) { Err(e) => return Some(Err(e)), Ok(Some(u)) => return Some(Ok(u)), Ok(None) => {} } } } }
    }
    pub struct AndThen<I, F>(I, F);
    impl<I: Iterator<Item = Result<T, E>>, T, E, U, F: FnMut(T) -> Result<U, E>> Iterator for AndThen<I, F> {
        type Item = Result<U, E>;
        fn next(&mut self) -> Option<Self::Item> { match self.0.next() { None => None, Some(Err(e)) => Some(Err(e)), Some(Ok(x)) => Some((self.1)(x)) } }
    }
    pub struct MapOk<I, F>(I, F);
    impl<I: Iterator<Item = Result<T, E>>, T, E, U, F: FnMut(T) -> U> Iterator for MapOk<I, F> {
        type Item = Result<U, E>;
        fn next(&mut self) -> Option<Self::Item> { match self.0.next() { None => None, Some(Err(e)) => Some(Err(e)), Some(Ok(x)) => Some(Ok((self.1)(x))) } }
    }
    pub struct MapErr<I, F>(I, F);
    impl<I: Iterator<Item = Result<T, E>>, T, E, U, F: FnMut(E) -> U> Iterator for MapErr<I, F> {
        type Item = Result<T, U>;
        fn next(&mut self) -> Option<Self::Item> { match self.0.next() { None => None, Some(Err(e)) => Some(Err((self.1)(e))), Some(Ok(x)) => Some(Ok(x)) } }
    }
    pub trait TryStreamExt: Iterator<Item = Result<Self::Ok, Self::Error>> + Sized {
        type Ok; type Error;
        fn try_filter_map<U, F: FnMut(Self::Ok) -> Result<Option<U>, Self::Error>>(self, f: F) -> TryFilterMap<Self, F> { TryFilterMap(self, f) }
        fn and_then<U, F: FnMut(Self::Ok) -> Result<U, Self::Error>>(self, f: F) -> AndThen<Self, F> { AndThen(self, f) }
        fn map_ok<U, F: FnMut(Self::Ok) -> U>(self, f: F) -> MapOk<Self, F> { MapOk(self, f) }
        fn map_err<U, F: FnMut(Self::Error) -> U>(self, f: F) -> MapErr<Self, F> { MapErr(self, f) }
        fn try_next(&mut self) -> Result<Option<Self::Ok>, Self::Error> { match self.next() { None => Ok(None), Some(Ok(x)) => Ok(Some(x)), Some(Err(e)) => Err(e) } }
        fn try_collect<C: Default + Extend<Self::Ok>>(mut self) -> Result<C, Self::Error> { let mut c = C::default(); while let Some(x) = self.next() { c.extend(Some(x?)); } Ok(c) }
        fn try_for_each<F: FnMut(Self::Ok) -> Result<(), Self::Error>>(mut self, mut f: F) -> Result<(), Self::Error> { while let Some(x) = self.next() { f(x?)?; } Ok(()) }
        fn try_fold<A, F: FnMut(A, Self::Ok) -> Result<A, Self::Error>>(mut self, a: A, mut f: F) -> Result<A, Self::Error> { let mut a = a; while let Some(x) = self.next() { a = f(a, x?)?; } Ok(a) }
    }
    impl<T, E, I: Iterator<Item = Result<T, E>>> TryStreamExt for I { type Ok = T; type Error = E; }
}
#[macro_export] macro_rules! pin_mut { ($($x:ident),*) => {}; }
