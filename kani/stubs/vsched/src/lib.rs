//! Interleavings of a few operations: at every synchronisation point of a running operation any operation that
//! has not started yet may run (which may again be interrupted). Operations that need a lock held by an
//! interrupted one are not scheduled there.
#![allow(static_mut_refs)]
/// tables (maps), slots per table
pub const NM: usize = 4;
pub const NS: usize = 2;
const N: usize = NM * NS;
#[derive(Clone, Copy, PartialEq, Eq)]
pub struct Slot { pub used: bool, pub live: bool, pub writer: bool, pub readers: u8, pub k0: u64, pub k1: u64, pub v: u64, pub t: u64 }
impl Slot {
    pub const FREE: Slot = Slot { used: false, live: false, writer: false, readers: 0, k0: 0, k1: 0, v: 0, t: 0 };
}
/// the slots
static mut W: [[Slot; NS]; NM] = [[Slot::FREE; NS]; NM];
pub static mut NEXT: usize = 0;
pub fn fresh() -> usize { unsafe { let i = NEXT; assert!(i < NM, "VERIF-MODEL: too many maps"); NEXT += 1; i } }
macro_rules! each { ($i:ident, $e:expr) => { { const $i: usize = 0; $e } { const $i: usize = 1; $e } { const $i: usize = 2; $e } { const $i: usize = 3; $e } } }
pub fn load(id: usize, j: usize) -> Slot { unsafe { let mut x = Slot::FREE; each!(I, if id == I { if j == 0 { x = W[I][0]; } else { x = W[I][1]; } }); x } }
pub fn store(id: usize, j: usize, s: Slot) { unsafe { each!(I, if id == I { if j == 0 { W[I][0] = s; } else { W[I][1] = s; } }); } }
pub fn edit(id: usize, j: usize, f: impl FnOnce(&mut Slot)) { let mut s = load(id, j); f(&mut s); store(id, j, s) }
/// operations that have not started, and the number of the point at which they do
static mut A: Option<fn()> = None;
static mut B: Option<fn()> = None;
static mut AT: [u8; 2] = [0; 2];
static mut COUNT: u8 = 0;
/// a point where another operation may run
pub fn point() {
    unsafe {
        if let Some(f) = A { if COUNT == AT[0] { A = None; f(); } }
        if let Some(f) = B { if COUNT == AT[1] { B = None; f(); } }
        COUNT += 1;
    }
}
pub fn reset() { unsafe { NEXT = 0; W = [[Slot::FREE; NS]; NM]; COUNT = 0; } }
/// `first` with `a` and `b` starting at the given points of the run (or after it)
pub fn race(first: impl FnOnce(), a: Option<fn()>, b: Option<fn()>, at: [u8; 2]) {
    unsafe { COUNT = 0; AT = at; A = a; B = b; first(); if let Some(f) = A { A = None; f(); } if let Some(f) = B { B = None; f(); } }
}
/// every schedule with `a` starting at one of `n` points and `b` at one of `m`
pub fn schedules(n: u8, m: u8, mut f: impl FnMut([u8; 2])) {
    let (x, y) = (vsym::below(n), vsym::below(m));
    let mut i = 0;
    while i < n { let mut j = 0; while j < m { if x == i && y == j { reset(); f([i, j]); return; } j += 1; } i += 1; }
}
/// Turns a key into two words through its Hash implementation.
pub struct Pack { pub a: [u64; 2], n: usize }
impl Pack {
    pub fn of<Q: ?Sized + std::hash::Hash>(q: &Q) -> [u64; 2] { let mut p = Pack { a: [0; 2], n: 0 }; q.hash(&mut p); p.a }
    fn put(&mut self, x: u64) { assert!(self.n < 2, "VERIF-MODEL: key too large"); self.a[self.n] = x; self.n += 1; }
}
impl std::hash::Hasher for Pack {
    fn finish(&self) -> u64 { self.a[0] }
    fn write(&mut self, b: &[u8]) { assert!(b.len() <= 2, "VERIF-MODEL: key text too long"); let mut x = b.len() as u64; if b.len() > 0 { x = x << 8 | b[0] as u64; } if b.len() > 1 { x = x << 8 | b[1] as u64; } self.put(x) }
    fn write_u8(&mut self, _x: u8) {}
    fn write_u32(&mut self, x: u32) { self.put(x as u64) }
    fn write_u64(&mut self, x: u64) { self.put(x) }
    fn write_usize(&mut self, x: usize) { self.put(x as u64) }
    fn write_i64(&mut self, x: i64) { self.put(x as u64) }
    fn write_i32(&mut self, x: i32) { self.put(x as u64) }
}
