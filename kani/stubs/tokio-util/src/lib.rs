pub mod sync {
    use std::sync::Arc;
    use std::cell::Cell;
    #[derive(Clone, Debug, Default)]
    pub struct CancellationToken(Arc<C>);
    #[derive(Debug, Default)] struct C(Cell<bool>);
    unsafe impl Sync for C {}
    impl CancellationToken {
        pub fn new() -> Self { Self::default() }
        pub fn cancel(&self) { self.0.0.set(true) }
        pub fn is_cancelled(&self) -> bool { self.0.0.get() }
        /// only ready when cancelled
        pub async fn cancelled(&self) { vsym::assume(self.is_cancelled()) }
        pub fn child_token(&self) -> Self { self.clone() }
        pub fn drop_guard(self) -> DropGuard { DropGuard(self) }
    }
    #[derive(Debug)]
    pub struct DropGuard(CancellationToken);
    impl Drop for DropGuard { fn drop(&mut self) { self.0.cancel() } }
}
pub mod time {
    /// entries in insertion order; an entry may expire at any time after insertion
    #[derive(Debug)]
    pub struct DelayQueue<T> { pub e: Vec<T> }
    pub struct Expired<T>(T);
    impl<T> Expired<T> { pub fn into_inner(self) -> T { self.0 } pub fn get_ref(&self) -> &T { &self.0 } }
    impl<T> Default for DelayQueue<T> { fn default() -> Self { Self::new() } }
    impl<T> DelayQueue<T> { pub fn new() -> Self { DelayQueue { e: Vec::with_capacity(4) } } pub fn insert(&mut self, t: T, _d: std::time::Duration) -> usize { self.e.push(t); self.e.len() - 1 } pub fn len(&self) -> usize { self.e.len() } pub fn is_empty(&self) -> bool { self.e.is_empty() } pub fn pop(&mut self) -> Option<T> { if self.e.is_empty() { None } else { Some(self.e.remove(0)) } }
        pub async fn next(&mut self) -> Option<Expired<T>> { self.pop().map(Expired) } }
}
pub mod task { #[derive(Clone, Default)] pub struct TaskTracker; }
