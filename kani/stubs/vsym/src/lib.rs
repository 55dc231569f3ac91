//! Source of symbolic values. Under Kani: kani::any. Natively: the concrete
//! values of a counterexample (file named by VERIF_REPLAY: one line per value,
//! space separated little-endian bytes), in call order.
#![allow(static_mut_refs)]

macro_rules! prim {
    ($($f:ident : $t:ty),*) => { $(
        #[cfg(kani)]
        #[inline]
        pub fn $f() -> $t { kani::any() }
        #[cfg(not(kani))]
        pub fn $f() -> $t {
            let b = native::next(core::mem::size_of::<$t>());
            let mut a = [0u8; core::mem::size_of::<$t>()];
            a.copy_from_slice(&b);
            <$t>::from_le_bytes(a)
        }
    )* }
}
prim!(u8_: u8, u16_: u16, u32_: u32, u64_: u64, i64_: i64, usize_: usize, i32_: i32);

#[cfg(kani)]
#[inline]
pub fn bool_() -> bool { kani::any() }
#[cfg(not(kani))]
pub fn bool_() -> bool { native::next(1)[0] != 0 }

/// An i64 whose bits 0-7, 32-39 and 56-63 are arbitrary and whose other bits are 0: wide enough to
/// exercise sign, truncation to 32 bits and ordering, narrow enough for the solver.
#[inline]
pub fn sparse() -> i64 { let a = u8_() as u64; let b = u8_() as u64; let c = u8_() as u64; (a | b << 32 | c << 56) as i64 }

/// value in 0..n (n small)
#[inline]
pub fn below(n: u8) -> u8 { let x = u8_(); assume(x < n); x }

#[inline]
pub fn assume(c: bool) {
    #[cfg(kani)]
    kani::assume(c);
    #[cfg(not(kani))]
    if !c { native::assumption_failed() }
}

/// Reachability witness: under Kani must be satisfiable.
#[macro_export]
macro_rules! witness {
    ($c:expr, $m:literal) => {{ #[cfg(kani)] { kani::cover!($c, $m); } #[cfg(not(kani))] { let _ = $c; } }};
}

#[cfg(not(kani))]
pub mod native {
    use std::sync::Mutex;
    static Q: Mutex<Option<std::collections::VecDeque<Vec<u8>>>> = Mutex::new(None);
    pub fn next(n: usize) -> Vec<u8> {
        let mut g = Q.lock().unwrap();
        if g.is_none() {
            let f = std::env::var("VERIF_REPLAY").expect("VERIF_REPLAY not set");
            let t = std::fs::read_to_string(f).unwrap();
            *g = Some(t.lines().map(|l| l.split_whitespace().map(|x| x.parse().unwrap()).collect()).collect());
        }
        match g.as_mut().unwrap().pop_front() {
            Some(v) => { if v.len() != n { eprintln!("VERIF-REPLAY-DIVERGED size"); std::process::exit(3) } v }
            // values after the end of the trace are unconstrained
            None => vec![0; n],
        }
    }
    pub fn assumption_failed() { eprintln!("VERIF-REPLAY-DIVERGED assumption"); std::process::exit(3) }
}

/// Run a future to completion; every future in the model is ready within a bounded number of polls. //@async
pub fn block_on<F: core::future::Future>(f: F) -> F::Output { //@async
    use core::task::{Context, Poll, RawWaker, RawWakerVTable, Waker}; //@async
    const VT: RawWakerVTable = RawWakerVTable::new(|_| RawWaker::new(core::ptr::null(), &VT), |_| {}, |_| {}, |_| {}); //@async
    let w = unsafe { Waker::from_raw(RawWaker::new(core::ptr::null(), &VT)) }; //@async
    let mut cx = Context::from_waker(&w); //@async
    let mut f = core::pin::pin!(f); //@async
    match f.as_mut().poll(&mut cx) { //@async
        Poll::Ready(x) => x, //@async
        Poll::Pending => panic!("VERIF-MODEL: future not ready"), //@async
    } //@async
} //@async
/// poll once //@async
pub fn poll_once<F: core::future::Future>(f: F) -> Option<F::Output> { //@async
    use core::task::{Context, Poll, RawWaker, RawWakerVTable, Waker}; //@async
    const VT: RawWakerVTable = RawWakerVTable::new(|_| RawWaker::new(core::ptr::null(), &VT), |_| {}, |_| {}, |_| {}); //@async
    let w = unsafe { Waker::from_raw(RawWaker::new(core::ptr::null(), &VT)) }; //@async
    let mut cx = Context::from_waker(&w); //@async
    let mut f = core::pin::pin!(f); //@async
    match f.as_mut().poll(&mut cx) { //@async
        Poll::Ready(x) => Some(x), //@async
        Poll::Pending => None, //@async
    } //@async
} //@async
pub fn block_on<T>(x: T) -> T { x } //@sync
