//! Stand-in. select! picks any branch nondeterministically (over-approximates readiness), sleeps return
//! at once, mutexes are uncontended (the model is single threaded; other tasks run at explicit points),
//! spawned tasks are handed to the harness, channels are bounded queues.
#![allow(static_mut_refs)]
pub use vsym;
/// select!: choose a branch.
#[macro_export]
macro_rules! select {
    (biased; $($t:tt)*) => { $crate::select!($($t)*) };
    ($($t:tt)*) => { $crate::__select!({} $($t)*) };
}
#[macro_export]
macro_rules! __select {
    // done: one or more branches collected
    ({ $($acc:tt)* }) => { $crate::__branches!($($acc)*) };
    ({ $($acc:tt)* } else => $b:expr $(,)?) => { $crate::__branches!($($acc)*) };
    ({ $($acc:tt)* } $p:pat = $f:expr, if $c:expr => $b:block, $($r:tt)*) => { $crate::__select!({ $($acc)* ($p, $f, $c, $b) } $($r)*) };
    ({ $($acc:tt)* } $p:pat = $f:expr, if $c:expr => $b:block $($r:tt)*) => { $crate::__select!({ $($acc)* ($p, $f, $c, $b) } $($r)*) };
    ({ $($acc:tt)* } $p:pat = $f:expr, if $c:expr => $b:expr, $($r:tt)*) => { $crate::__select!({ $($acc)* ($p, $f, $c, $b) } $($r)*) };
    ({ $($acc:tt)* } $p:pat = $f:expr, if $c:expr => $b:expr) => { $crate::__select!({ $($acc)* ($p, $f, $c, $b) }) };
    ({ $($acc:tt)* } $p:pat = $f:expr => $b:block, $($r:tt)*) => { $crate::__select!({ $($acc)* ($p, $f, true, $b) } $($r)*) };
    ({ $($acc:tt)* } $p:pat = $f:expr => $b:block $($r:tt)*) => { $crate::__select!({ $($acc)* ($p, $f, true, $b) } $($r)*) };
    ({ $($acc:tt)* } $p:pat = $f:expr => $b:expr, $($r:tt)*) => { $crate::__select!({ $($acc)* ($p, $f, true, $b) } $($r)*) };
    ({ $($acc:tt)* } $p:pat = $f:expr => $b:expr) => { $crate::__select!({ $($acc)* ($p, $f, true, $b) }) };
}
#[macro_export]
macro_rules! __branches {
    ($(($p:pat, $f:expr, $c:expr, $b:expr))+) => {{
        loop {
            $( if $c && $crate::choose() {
                #[allow(irrefutable_let_patterns, unused_parens)]
                if let $p = ($f).await { break $b } else { $crate::dead() }
            } )+
            $crate::dead();
        }
    }};
}
/// Takes the branch nondeterministically.
pub fn choose() -> bool { vsym::bool_() }
pub fn dead() { vsym::assume(false) }

pub mod time {
    use std::future::Future; //@async
    pub use std::time::Duration;
    #[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
    pub struct Instant(pub u64);
    impl Instant { pub fn now() -> Self { Instant(0) } pub fn elapsed(&self) -> Duration { Duration::ZERO } pub fn duration_since(&self, _o: Instant) -> Duration { Duration::ZERO } }
    impl std::ops::Add<Duration> for Instant { type Output = Instant; fn add(self, _d: Duration) -> Instant { self } }
    impl std::ops::Sub for Instant { type Output = Duration; fn sub(self, _d: Instant) -> Duration { Duration::ZERO } }
    #[derive(Clone, Copy, Debug)]
    pub enum MissedTickBehavior { Burst, Delay, Skip }
    #[derive(Debug)]
    pub struct Interval;
    impl Interval { pub fn set_missed_tick_behavior(&mut self, _m: MissedTickBehavior) {} pub async fn tick(&mut self) -> Instant { Instant(0) } pub fn reset(&mut self) {} }
    pub fn interval(_d: Duration) -> Interval { Interval }
    pub fn interval_at(_i: Instant, _d: Duration) -> Interval { Interval }
    pub async fn sleep(_d: Duration) {}
    pub async fn sleep_until(_d: Instant) {}
    pub mod error { #[derive(Debug)] pub struct Elapsed; }
    pub async fn timeout<F: Future>(_d: Duration, f: F) -> Result<F::Output, error::Elapsed> { Ok(f.await) } //@async
    pub fn timeout<T>(_d: Duration, f: T) -> Result<T, error::Elapsed> { Ok(f) } //@sync
}
pub mod sync {
    use std::cell::UnsafeCell;
    pub struct Mutex<T: ?Sized>(UnsafeCell<T>);
    unsafe impl<T: Send> Sync for Mutex<T> {}
    unsafe impl<T: Send> Send for Mutex<T> {}
    impl<T> std::fmt::Debug for Mutex<T> { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("Mutex") } }
    impl<T: Default> Default for Mutex<T> { fn default() -> Self { Mutex::new(T::default()) } }
    pub struct MutexGuard<'a, T>(&'a mut T);
    unsafe impl<T: Send> Send for MutexGuard<'_, T> {}
    impl<T> Mutex<T> { pub const fn new(t: T) -> Self { Mutex(UnsafeCell::new(t)) } #[allow(clippy::mut_from_ref)] pub async fn lock(&self) -> MutexGuard<'_, T> { MutexGuard(unsafe { &mut *self.0.get() }) } pub fn try_lock(&self) -> Result<MutexGuard<'_, T>, ()> { Ok(MutexGuard(unsafe { &mut *self.0.get() })) } pub fn blocking_lock(&self) -> MutexGuard<'_, T> { MutexGuard(unsafe { &mut *self.0.get() }) } }
    impl<T> std::ops::Deref for MutexGuard<'_, T> { type Target = T; fn deref(&self) -> &T { self.0 } }
    impl<T> std::ops::DerefMut for MutexGuard<'_, T> { fn deref_mut(&mut self) -> &mut T { self.0 } }
    #[derive(Debug, Default)]
    pub struct Notify { pub n: UnsafeCell<u32> }
    unsafe impl Sync for Notify {}
    impl Notify { pub fn new() -> Self { Notify::default() } pub async fn notified(&self) {} pub fn notify_waiters(&self) { unsafe { *self.n.get() += 1; } } pub fn notify_one(&self) { unsafe { *self.n.get() += 1; } } pub fn count(&self) -> u32 { unsafe { *self.n.get() } } }
    pub mod mpsc {
        use std::sync::Arc;
        use std::cell::UnsafeCell;
        pub mod error { #[derive(Debug, PartialEq, Eq, Clone, Copy)] pub struct SendError<T>(pub T); #[derive(Debug)] pub enum TryRecvError { Empty, Disconnected } #[derive(Debug)] pub enum TrySendError<T> { Full(T), Closed(T) } impl<T> std::fmt::Display for SendError<T> { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("closed") } } impl<T: std::fmt::Debug> std::error::Error for SendError<T> {} }
        pub struct Q<T> { pub q: UnsafeCell<Vec<T>>, pub closed: UnsafeCell<bool> }
        unsafe impl<T: Send> Sync for Q<T> {}
        macro_rules! ch { ($tx:ident, $rx:ident) => {
            pub struct $tx<T>(pub Arc<Q<T>>);
            impl<T> std::fmt::Debug for $tx<T> { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("tx") } }
            impl<T> std::fmt::Debug for $rx<T> { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("rx") } }
            impl<T> Clone for $tx<T> { fn clone(&self) -> Self { $tx(self.0.clone()) } }
            pub struct $rx<T>(pub Arc<Q<T>>);
            impl<T> $tx<T> { pub fn is_closed(&self) -> bool { unsafe { *self.0.closed.get() } } pub fn put(&self, t: T) -> Result<(), error::SendError<T>> { unsafe { if *self.0.closed.get() { return Err(error::SendError(t)); } (*self.0.q.get()).push(t); } Ok(()) } }
            impl<T> $rx<T> { pub async fn recv(&mut self) -> Option<T> { self.try_recv().ok() } pub fn try_recv(&mut self) -> Result<T, error::TryRecvError> { unsafe { if (*self.0.q.get()).is_empty() { Err(error::TryRecvError::Empty) } else { Ok((*self.0.q.get()).remove(0)) } } } pub fn close(&mut self) { unsafe { *self.0.closed.get() = true; } } pub fn len(&self) -> usize { unsafe { (*self.0.q.get()).len() } } pub fn is_empty(&self) -> bool { self.len() == 0 } }
        } }
        ch!(Sender, Receiver);
        ch!(UnboundedSender, UnboundedReceiver);
        impl<T> Sender<T> { pub async fn send(&self, t: T) -> Result<(), error::SendError<T>> { self.put(t) } pub fn blocking_send(&self, t: T) -> Result<(), error::SendError<T>> { self.put(t) } pub fn try_send(&self, t: T) -> Result<(), error::TrySendError<T>> { self.put(t).map_err(|e| error::TrySendError::Closed(e.0)) } }
        impl<T> UnboundedSender<T> { pub fn send(&self, t: T) -> Result<(), error::SendError<T>> { self.put(t) } }
        fn q<T>() -> Arc<Q<T>> { Arc::new(Q { q: UnsafeCell::new(Vec::with_capacity(8)), closed: UnsafeCell::new(false) }) }
        pub fn channel<T>(_n: usize) -> (Sender<T>, Receiver<T>) { let a = q(); (Sender(a.clone()), Receiver(a)) }
        pub fn unbounded_channel<T>() -> (UnboundedSender<T>, UnboundedReceiver<T>) { let a = q(); (UnboundedSender(a.clone()), UnboundedReceiver(a)) }
    }
    pub mod oneshot {
        use std::sync::Arc;
        use std::cell::UnsafeCell;
        pub mod error { #[derive(Debug, PartialEq, Eq, Clone)] pub struct RecvError(pub ()); impl std::fmt::Display for RecvError { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("closed") } } impl std::error::Error for RecvError {} }
        pub struct S<T>(UnsafeCell<(Option<T>, bool)>);
        unsafe impl<T: Send> Sync for S<T> {}
        pub struct Sender<T>(Arc<S<T>>);
        pub struct Receiver<T>(Arc<S<T>>);
        impl<T> std::fmt::Debug for Sender<T> { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("tx") } }
        impl<T> Sender<T> { pub fn send(self, t: T) -> Result<(), T> { unsafe { if (*self.0.0.get()).1 { return Err(t); } (*self.0.0.get()).0 = Some(t); } Ok(()) } pub fn is_closed(&self) -> bool { unsafe { (*self.0.0.get()).1 } } }
        impl<T> Receiver<T> { pub fn peek(&self) -> Option<&T> { unsafe { (*self.0.0.get()).0.as_ref() } } }
        impl<T> Drop for Receiver<T> { fn drop(&mut self) { unsafe { (*self.0.0.get()).1 = true; } } }
        impl<T> std::future::Future for Receiver<T> { type Output = Result<T, error::RecvError>; fn poll(self: std::pin::Pin<&mut Self>, _c: &mut std::task::Context<'_>) -> std::task::Poll<Self::Output> { unsafe { match (*self.0.0.get()).0.take() { Some(x) => std::task::Poll::Ready(Ok(x)), None => if Arc::strong_count(&self.0) == 1 { std::task::Poll::Ready(Err(error::RecvError(()))) } else { std::task::Poll::Pending } } } } } //@async
        pub fn channel<T>() -> (Sender<T>, Receiver<T>) { let a = Arc::new(S(UnsafeCell::new((None, false)))); (Sender(a.clone()), Receiver(a)) }
    }
}
pub mod task {
    use std::future::Future; //@async
    pub struct JoinHandle<T>(std::marker::PhantomData<T>);
    impl<T> JoinHandle<T> { pub fn abort(&self) {} pub fn is_finished(&self) -> bool { false } }
    #[derive(Debug)]
    pub struct JoinError;
    pub static mut SPAWNED: u32 = 0;
    /// Spawned tasks are not run (a task may be delayed forever); the harness runs what it needs itself.
    pub fn spawn<F: Future>(f: F) -> JoinHandle<F::Output> { unsafe { SPAWNED += 1; } std::mem::forget(f); JoinHandle(std::marker::PhantomData) } //@async
    pub fn spawn<T, F: FnOnce() -> T>(f: F) -> JoinHandle<T> { unsafe { SPAWNED += 1; } std::mem::forget(f); JoinHandle(std::marker::PhantomData) } //@sync
    pub async fn yield_now() {}
}
pub use task::spawn;
