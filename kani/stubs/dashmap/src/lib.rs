//! Stand-in for dashmap: a map of at most vsched::NS keys, one reader/writer lock per key, every lock
//! acquisition a possible context switch. Keys are identified by what they hash. Values without a destructor
//! of at most 8 bytes live in the scheduled world state; others are kept in an arena and only shared.
#![allow(static_mut_refs)]
use std::borrow::Borrow;
use std::cell::UnsafeCell;
use std::hash::Hash;
use std::mem::{ManuallyDrop, MaybeUninit};
use vsched::{Pack, NS, load, store, edit, point};
const NA: usize = 4;
pub struct Arena<T>(UnsafeCell<[MaybeUninit<T>; NA]>, UnsafeCell<usize>);
impl<T> Arena<T> {
    fn new() -> ManuallyDrop<Self> { ManuallyDrop::new(Arena(UnsafeCell::new([const { MaybeUninit::uninit() }; NA]), UnsafeCell::new(0))) }
    fn put(&self, t: T) -> usize { unsafe { let n = *self.1.get(); assert!(n < NA, "VERIF-MODEL: arena"); let a = &mut *self.0.get(); a[n] = MaybeUninit::new(t); *self.1.get() = n + 1; n } }
    fn at(&self, x: usize) -> *const T { unsafe { let a = &*self.0.get(); vsym::assume(x < NA); &a[x] as *const MaybeUninit<T> as *const T } }
}
/// the key of each slot (a slot is never used for another key); only for keys that are not plain words
pub struct Keys<K>(UnsafeCell<[Option<K>; NS]>);
impl<K> Keys<K> {
    fn new() -> ManuallyDrop<Self> { ManuallyDrop::new(Keys(UnsafeCell::new([const { None }; NS]))) }
    fn put(&self, j: usize, k: K) { if inline::<K>() { return; } unsafe { let a = &mut *self.0.get(); vsym::assume(j < NS); if a[j].is_none() { a[j] = Some(k); } else { std::mem::forget(k); } } }
    fn at(&self, j: usize) -> *const K { unsafe { let a = &*self.0.get(); vsym::assume(j < NS); match &a[j] { Some(b) => b as *const K, None => { vsym::assume(false); std::ptr::null() } } } }
}
pub struct DashMap<K, V, S = Rs> { id: usize, ks: ManuallyDrop<Keys<K>>, vs: ManuallyDrop<Arena<V>>, _s: std::marker::PhantomData<S> }
#[derive(Clone, Default, Debug)]
pub struct Rs;
unsafe impl<K, V, S> Sync for DashMap<K, V, S> {}
unsafe impl<K, V, S> Send for DashMap<K, V, S> {}
impl<K, V, S> std::fmt::Debug for DashMap<K, V, S> { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("DashMap") } }
const fn inline<V>() -> bool { !std::mem::needs_drop::<V>() && std::mem::size_of::<V>() == 8 }
fn bits<V>(v: &V) -> u64 { unsafe { std::ptr::read(v as *const V as *const u64) } }
fn val<V>(x: u64) -> V { unsafe { std::ptr::read(&x as *const u64 as *const V) } }
impl<K, V, S> Default for DashMap<K, V, S> { fn default() -> Self { DashMap { id: vsched::fresh(), ks: Keys::new(), vs: Arena::new(), _s: std::marker::PhantomData } } }
impl<K, V> DashMap<K, V> { pub fn new() -> Self { Self::default() } pub fn with_capacity(_n: usize) -> Self { Self::default() } }
impl<K: Eq + Hash, V, S> DashMap<K, V, S> {
    pub fn with_hasher(_s: S) -> Self { Self::default() }
    pub fn with_capacity_and_hasher(_n: usize, _s: S) -> Self { Self::default() }
    fn find(&self, k: [u64; 2]) -> Option<usize> { let mut o = None; let mut j = 0; while j < NS { let s = load(self.id, j); if s.used && s.k0 == k[0] && s.k1 == k[1] { o = Some(j); } j += 1; } o }
    fn find_or_new(&self, k: [u64; 2]) -> usize {
        if let Some(j) = self.find(k) { return j; }
        let mut o = NS;
        let mut j = 0; while j < NS { if o == NS && !load(self.id, j).used { o = j; } j += 1; }
        assert!(o < NS, "VERIF-MODEL: map capacity");
        store(self.id, o, vsched::Slot { used: true, k0: k[0], k1: k[1], ..vsched::Slot::FREE });
        o
    }
    fn read(&self, k: [u64; 2]) -> Option<usize> { point(); let j = self.find(k)?; let mut s = load(self.id, j); vsym::assume(!s.writer); if !s.live { return None; } s.readers += 1; store(self.id, j, s); Some(j) }
    fn write(&self, k: [u64; 2]) -> usize { point(); let j = self.find_or_new(k); edit(self.id, j, |s| { vsym::assume(!s.writer && s.readers == 0); s.writer = true; }); j }
    fn unlock(&self, j: usize) { edit(self.id, j, |s| s.writer = false) }
    fn peek(&self, j: usize) -> Val<V> { let x = load(self.id, j).v; if inline::<V>() { Val::Own(ManuallyDrop::new(val(x))) } else { Val::Ptr(self.vs.at(x as usize)) } }
    fn put(&self, j: usize, k: K, v: V) {
        self.ks.put(j, k);
        let x = if inline::<V>() { let b = bits(&v); std::mem::forget(v); b } else { self.vs.put(v) as u64 };
        edit(self.id, j, |s| { s.live = true; s.v = x; });
    }
    fn key(&self, j: usize) -> Val<K> { if inline::<K>() { Val::Own(ManuallyDrop::new(val(load(self.id, j).k0))) } else { Val::Ptr(self.ks.at(j)) } }
    pub fn get<Q: ?Sized + Hash + Eq>(&self, k: &Q) -> Option<mapref::one::Ref<'_, K, V, S>> where K: Borrow<Q> { let j = self.read(Pack::of(k))?; Some(mapref::one::Ref { m: self, j, v: self.peek(j), k: self.key(j) }) }
    pub fn get_mut<Q: ?Sized + Hash + Eq>(&self, k: &Q) -> Option<mapref::one::RefMut<'_, K, V, S>> where K: Borrow<Q> { let j = self.write(Pack::of(k)); if !load(self.id, j).live { self.unlock(j); return None; } Some(mapref::one::RefMut { m: self, j, v: self.peek(j) }) }
    pub fn contains_key<Q: ?Sized + Hash + Eq>(&self, k: &Q) -> bool where K: Borrow<Q> { self.get(k).is_some() }
    pub fn entry(&self, k: K) -> Entry<'_, K, V, S> { let j = self.write(Pack::of(&k)); let g = Guard { m: self, j, dirty: None }; if load(self.id, j).live { let v = self.peek(j); Entry::Occupied(OccupiedEntry { g, k, v }) } else { Entry::Vacant(VacantEntry { g, k }) } }
    pub fn insert(&self, k: K, v: V) -> Option<V> { match self.entry(k) { Entry::Occupied(mut o) => Some(o.insert(v)), Entry::Vacant(e) => { e.insert(v); None } } }
    pub fn remove_if<Q: ?Sized + Hash + Eq>(&self, k: &Q, f: impl FnOnce(&K, &V) -> bool) -> Option<(K, V)> where K: Borrow<Q> {
        let j = self.write(Pack::of(k));
        let mut out = None;
        if load(self.id, j).live { let v = self.peek(j); if f(self.key(j).get(), v.get()) { out = Some(self.take(j)); } }
        self.unlock(j);
        out
    }
    pub fn remove_if_mut<Q: ?Sized + Hash + Eq>(&self, k: &Q, f: impl FnOnce(&K, &mut V) -> bool) -> Option<(K, V)> where K: Borrow<Q> {
        let j = self.write(Pack::of(k));
        let mut out = None;
        if load(self.id, j).live { let mut v = self.peek(j); if f(self.key(j).get(), v.get_mut()) { out = Some(self.take(j)); } else if inline::<V>() { let b = bits(v.get()); edit(self.id, j, |s| s.v = b); } }
        self.unlock(j);
        out
    }
    /// removed arena entries stay allocated (a reader of another round may still look at them)
    fn take(&self, j: usize) -> (K, V) { let v = self.peek(j); let k = gone(self.key(j)); edit(self.id, j, |s| s.live = false); (k, v.out()) }
    pub fn remove<Q: ?Sized + Hash + Eq>(&self, k: &Q) -> Option<(K, V)> where K: Borrow<Q> { self.remove_if(k, |_, _| true) }
    pub fn len(&self) -> usize { point(); let mut n = 0; for j in 0..NS { let s = load(self.id, j); vsym::assume(!s.writer); n += (s.used && s.live) as usize; } n }
    pub fn is_empty(&self) -> bool { self.len() == 0 }
    pub fn clear(&self) { point(); for j in 0..NS { edit(self.id, j, |s| { vsym::assume(!s.writer && s.readers == 0); s.live = false; }) } }
    pub fn iter(&self) -> Iter<'_, K, V, S> { Iter { m: self, j: 0 } }
    pub fn alter<Q: ?Sized + Hash + Eq>(&self, k: &Q, f: impl FnOnce(&K, V) -> V) where K: Borrow<Q> { if let Some(mut r) = self.get_mut(k) { assert!(inline::<V>(), "VERIF-MODEL: alter"); let old: V = val(bits(&*r)); let n = f(self.key(r.j).get(), old); *r = n; } }
}
/// a removed key, handed out; its allocation stays with the map
fn gone<K>(k: Val<K>) -> K { if inline::<K>() { k.out() } else if cfg!(kani) { unsafe { MaybeUninit::zeroed().assume_init() } } else { k.out() } }
pub enum Val<V> { Own(ManuallyDrop<V>), Ptr(*const V) }
impl<V> Val<V> { fn get(&self) -> &V { match self { Val::Own(v) => v, Val::Ptr(p) => unsafe { &**p } } } fn get_mut(&mut self) -> &mut V { match self { Val::Own(v) => v, Val::Ptr(p) => unsafe { &mut *(*p as *mut V) } } } fn out(self) -> V { match self { Val::Own(v) => ManuallyDrop::into_inner(v), Val::Ptr(p) => unsafe { std::ptr::read(p) } } } }
/// write lock; `dirty` is the value to store on release
pub struct Guard<'a, K, V, S> { m: &'a DashMap<K, V, S>, j: usize, dirty: Option<u64> }
impl<K, V, S> Drop for Guard<'_, K, V, S> { fn drop(&mut self) { let d = self.dirty; edit(self.m.id, self.j, |s| { s.writer = false; if let Some(b) = d { s.v = b; } }); } }
pub struct OccupiedEntry<'a, K, V, S = Rs> { g: Guard<'a, K, V, S>, k: K, v: Val<V> }
pub struct VacantEntry<'a, K, V, S = Rs> { g: Guard<'a, K, V, S>, k: K }
pub enum Entry<'a, K, V, S = Rs> { Occupied(OccupiedEntry<'a, K, V, S>), Vacant(VacantEntry<'a, K, V, S>) }
impl<'a, K: Eq + Hash, V, S> OccupiedEntry<'a, K, V, S> {
    pub fn get(&self) -> &V { self.v.get() }
    pub fn get_mut(&mut self) -> Slotted<'_, 'a, K, V, S> { Slotted(self) }
    pub fn into_ref(self) -> mapref::one::RefMut<'a, K, V, S> { let OccupiedEntry { mut g, k: _, v } = self; let (m, j) = (g.m, g.j); std::mem::forget(g); mapref::one::RefMut { m, j, v } }
    pub fn insert(&mut self, v: V) -> V { let o = std::mem::replace(self.v.get_mut(), v); self.sync(); o }
    fn sync(&mut self) { if inline::<V>() { let b = bits(self.v.get()); edit(self.g.m.id, self.g.j, |s| s.v = b); } }
    pub fn key(&self) -> &K { &self.k }
    pub fn remove(self) -> V { self.g.m.take(self.g.j).1 }
    pub fn remove_entry(self) -> (K, V) { self.g.m.take(self.g.j) }
}
/// `&mut V` of an occupied entry, stored when it goes away
pub struct Slotted<'b, 'a, K: Eq + Hash, V, S>(&'b mut OccupiedEntry<'a, K, V, S>);
impl<K: Eq + Hash, V, S> std::ops::Deref for Slotted<'_, '_, K, V, S> { type Target = V; fn deref(&self) -> &V { self.0.v.get() } }
impl<K: Eq + Hash, V, S> std::ops::DerefMut for Slotted<'_, '_, K, V, S> { fn deref_mut(&mut self) -> &mut V { self.0.v.get_mut() } }
impl<K: Eq + Hash, V, S> Drop for Slotted<'_, '_, K, V, S> { fn drop(&mut self) { self.0.sync() } }
impl<'a, K: Eq + Hash, V, S> VacantEntry<'a, K, V, S> {
    pub fn insert(self, v: V) -> mapref::one::RefMut<'a, K, V, S> { let (m, j) = (self.g.m, self.g.j); m.put(j, self.k, v); std::mem::forget(self.g); mapref::one::RefMut { m, j, v: m.peek(j) } }
    pub fn key(&self) -> &K { &self.k }
}
impl<'a, K: Eq + Hash, V, S> Entry<'a, K, V, S> {
    pub fn and_modify(self, f: impl FnOnce(&mut V)) -> Self { match self { Entry::Occupied(mut o) => { f(o.v.get_mut()); o.sync(); Entry::Occupied(o) } x => x } }
    pub fn or_insert_with(self, f: impl FnOnce() -> V) -> mapref::one::RefMut<'a, K, V, S> { match self { Entry::Occupied(o) => o.into_ref(), Entry::Vacant(e) => e.insert(f()) } }
    pub fn or_insert(self, v: V) -> mapref::one::RefMut<'a, K, V, S> { self.or_insert_with(|| v) }
    pub fn or_default(self) -> mapref::one::RefMut<'a, K, V, S> where V: Default { self.or_insert_with(V::default) }
    pub fn key(&self) -> &K { match self { Entry::Occupied(o) => &o.k, Entry::Vacant(v) => &v.k } }
}
pub mod mapref {
    pub mod entry { pub use crate::{Entry, OccupiedEntry, VacantEntry}; }
    pub mod one {
        use crate::*;
        pub struct Ref<'a, K, V, S = Rs> { pub(crate) m: &'a DashMap<K, V, S>, pub(crate) j: usize, pub(crate) v: Val<V>, pub(crate) k: Val<K> }
        pub struct RefMut<'a, K, V, S = Rs> { pub(crate) m: &'a DashMap<K, V, S>, pub(crate) j: usize, pub(crate) v: Val<V> }
        impl<K, V, S> Drop for Ref<'_, K, V, S> { fn drop(&mut self) { edit(self.m.id, self.j, |s| s.readers -= 1); } }
        impl<K, V, S> Drop for RefMut<'_, K, V, S> { fn drop(&mut self) { let b = if inline::<V>() { Some(bits(self.v.get())) } else { None }; edit(self.m.id, self.j, |s| { if let Some(b) = b { s.v = b; } s.writer = false; }); } }
        impl<K, V, S> std::ops::Deref for Ref<'_, K, V, S> { type Target = V; fn deref(&self) -> &V { self.v.get() } }
        impl<K, V, S> std::ops::Deref for RefMut<'_, K, V, S> { type Target = V; fn deref(&self) -> &V { self.v.get() } }
        impl<K, V, S> std::ops::DerefMut for RefMut<'_, K, V, S> { fn deref_mut(&mut self) -> &mut V { self.v.get_mut() } }
        impl<K: Eq + Hash, V, S> Ref<'_, K, V, S> { pub fn value(&self) -> &V { self.v.get() } pub fn key(&self) -> &K { self.k.get() } pub fn pair(&self) -> (&K, &V) { (self.key(), self.value()) } }
        impl<K: Eq + Hash, V, S> RefMut<'_, K, V, S> { pub fn value(&self) -> &V { self.v.get() } pub fn value_mut(&mut self) -> &mut V { self.v.get_mut() } }
    }
    pub mod multiple { pub use super::one::Ref as RefMulti; }
}
pub struct Iter<'a, K, V, S> { m: &'a DashMap<K, V, S>, j: usize }
impl<'a, K: Eq + Hash, V, S> Iterator for Iter<'a, K, V, S> { type Item = mapref::one::Ref<'a, K, V, S>; fn next(&mut self) -> Option<Self::Item> { while self.j < NS { let j = self.j; self.j += 1; let s = load(self.m.id, j); if s.used && s.live { if let Some(j) = self.m.read([s.k0, s.k1]) { return Some(mapref::one::Ref { m: self.m, j, v: self.m.peek(j), k: self.m.key(j) }); } } } None } }
impl<'a, K: Eq + Hash, V, S> IntoIterator for &'a DashMap<K, V, S> { type Item = mapref::one::Ref<'a, K, V, S>; type IntoIter = Iter<'a, K, V, S>; fn into_iter(self) -> Self::IntoIter { self.iter() } }
impl<K: serde::Serialize + Eq + Hash, V: serde::Serialize, S> serde::Serialize for DashMap<K, V, S> {
    fn serialize<Z: serde::Serializer>(&self, z: Z) -> Result<Z::Ok, Z::Error> { use serde::ser::SerializeMap; let mut m = z.serialize_map(Some(self.len()))?; for r in self.iter() { m.serialize_entry(r.key(), r.value())?; } m.end() }
}
