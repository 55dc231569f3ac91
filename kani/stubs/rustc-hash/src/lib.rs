//! Stand-in: association-list maps/sets with the std API subset (semantically equal to a hash map,
//! iteration order = insertion order).
use serde::{Deserialize, Deserializer, Serialize, Serializer};
use std::borrow::Borrow;
#[derive(Clone, Copy, Debug, Default)]
pub struct FxBuildHasher;
pub type FxHasher = std::collections::hash_map::DefaultHasher;
impl std::hash::BuildHasher for FxBuildHasher { type Hasher = FxHasher; fn build_hasher(&self) -> FxHasher { FxHasher::default() } }

/// slots; filled from the front, removal leaves a hole
const CAP: usize = @MAPCAP@;
#[derive(Clone, Debug)]
pub struct FxHashMap<K, V> { e: [Option<(K, V)>; CAP] }
impl<K, V> Default for FxHashMap<K, V> { fn default() -> Self { FxHashMap { e: [const { None }; CAP] } } }
impl<K: Eq, V: PartialEq> PartialEq for FxHashMap<K, V> {
    fn eq(&self, o: &Self) -> bool { self.len() == o.len() && self.iter().all(|(k, v)| o.iter().any(|(a, b)| a == k && b == v)) }
}
impl<K: Eq, V: Eq> Eq for FxHashMap<K, V> {}
impl<K, V> FxHashMap<K, V> {
    pub fn with_capacity_and_hasher(_n: usize, _h: FxBuildHasher) -> Self { Self::default() }
    pub fn with_hasher(_h: FxBuildHasher) -> Self { Self::default() }
    /// model-only: append without looking for duplicates
    pub fn push_unchecked(&mut self, k: K, v: V) { for i in 0..CAP { if self.e[i].is_none() { self.e[i] = Some((k, v)); return; } } panic!("VERIF-MODEL: map capacity") }
    pub fn model_push(&mut self, k: K, v: V) { self.push_unchecked(k, v) }
    pub fn len(&self) -> usize { let mut n = 0; for i in 0..CAP { if self.e[i].is_some() { n += 1; } } n }
    pub fn is_empty(&self) -> bool { self.len() == 0 }
    pub fn iter(&self) -> Iter<'_, K, V> { Iter(&self.e, 0) }
    pub fn iter_mut(&mut self) -> impl Iterator<Item = (&K, &mut V)> { self.e.iter_mut().filter_map(|x| x.as_mut().map(|(k, v)| (&*k, v))) }
    pub fn keys(&self) -> impl Iterator<Item = &K> { self.iter().map(|x| x.0) }
    pub fn values(&self) -> impl Iterator<Item = &V> { self.iter().map(|x| x.1) }
    pub fn into_keys(self) -> impl Iterator<Item = K> { self.into_iter().map(|x| x.0) }
    pub fn into_values(self) -> impl Iterator<Item = V> { self.into_iter().map(|x| x.1) }
    pub fn clear(&mut self) { for i in 0..CAP { self.e[i] = None; } }
    pub fn drain(&mut self) -> IntoIter<K, V> { std::mem::take(self).into_iter() }
    pub fn retain<F: FnMut(&K, &mut V) -> bool>(&mut self, mut f: F) { for i in 0..CAP { let keep = match &mut self.e[i] { Some((k, v)) => f(k, v), None => true }; if !keep { self.e[i] = None; } } }
}
impl<K: Eq, V> FxHashMap<K, V> {
    fn at<Q: ?Sized + Eq>(&self, k: &Q) -> Option<usize> where K: Borrow<Q> { let mut o = None; for i in 0..CAP { if let Some(x) = &self.e[i] { if x.0.borrow() == k { o = Some(i); } } } o }
    pub fn get<Q: ?Sized + Eq>(&self, k: &Q) -> Option<&V> where K: Borrow<Q> { for i in 0..CAP { if let Some(x) = &self.e[i] { if x.0.borrow() == k { return Some(&x.1); } } } None }
    pub fn get_mut<Q: ?Sized + Eq>(&mut self, k: &Q) -> Option<&mut V> where K: Borrow<Q> { let i = self.at(k)?; self.e[i].as_mut().map(|x| &mut x.1) }
    pub fn contains_key<Q: ?Sized + Eq>(&self, k: &Q) -> bool where K: Borrow<Q> { self.at(k).is_some() }
    pub fn insert(&mut self, k: K, v: V) -> Option<V> {
        for i in 0..CAP { if let Some(x) = &mut self.e[i] { if x.0 == k { return Some(std::mem::replace(&mut x.1, v)); } } }
        self.push_unchecked(k, v); None
    }
    pub fn remove<Q: ?Sized + Eq>(&mut self, k: &Q) -> Option<V> where K: Borrow<Q> {
        for i in 0..CAP { let hit = match &self.e[i] { Some(x) => x.0.borrow() == k, None => false }; if hit { return self.e[i].take().map(|x| x.1); } }
        None
    }
}
pub struct Iter<'a, K, V>(&'a [Option<(K, V)>; CAP], usize);
impl<'a, K, V> Iterator for Iter<'a, K, V> { type Item = (&'a K, &'a V); fn next(&mut self) -> Option<Self::Item> { while self.1 < CAP { let i = self.1; self.1 += 1; if let Some(x) = &self.0[i] { return Some((&x.0, &x.1)); } } None } fn size_hint(&self) -> (usize, Option<usize>) { let mut n = 0; for i in self.1..CAP { if self.0[i].is_some() { n += 1; } } (n, Some(n)) } }
impl<'a, K, V> ExactSizeIterator for Iter<'a, K, V> {}
pub struct IntoIter<K, V>([Option<(K, V)>; CAP], usize);
impl<K, V> Iterator for IntoIter<K, V> { type Item = (K, V); fn next(&mut self) -> Option<Self::Item> { while self.1 < CAP { let i = self.1; self.1 += 1; if let Some(x) = self.0[i].take() { return Some(x); } } None } }
impl<'a, K, V> IntoIterator for &'a FxHashMap<K, V> { type Item = (&'a K, &'a V); type IntoIter = Iter<'a, K, V>; fn into_iter(self) -> Iter<'a, K, V> { self.iter() } }
impl<K, V> IntoIterator for FxHashMap<K, V> { type Item = (K, V); type IntoIter = IntoIter<K, V>; fn into_iter(self) -> Self::IntoIter { IntoIter(self.e, 0) } }
impl<K: Eq, V> Extend<(K, V)> for FxHashMap<K, V> { fn extend<T: IntoIterator<Item = (K, V)>>(&mut self, it: T) { for (k, v) in it { self.insert(k, v); } } }
impl<K: Eq, V> FromIterator<(K, V)> for FxHashMap<K, V> { fn from_iter<T: IntoIterator<Item = (K, V)>>(it: T) -> Self { let mut m = Self::default(); m.extend(it); m } }
impl<K: Serialize, V: Serialize> Serialize for FxHashMap<K, V> { fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.collect_map(self.iter()) } }
struct MapVis<K, V>(std::marker::PhantomData<(K, V)>);
impl<'de, K: Deserialize<'de> + Eq, V: Deserialize<'de>> serde::de::Visitor<'de> for MapVis<K, V> { type Value = FxHashMap<K, V>; fn expecting(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("map") } fn visit_map<A: serde::de::MapAccess<'de>>(self, mut a: A) -> Result<Self::Value, A::Error> { let mut m = FxHashMap::default(); while let Some((k, v)) = a.next_entry()? { m.insert(k, v); } Ok(m) } }
impl<'de, K: Deserialize<'de> + Eq + std::hash::Hash, V: Deserialize<'de>> Deserialize<'de> for FxHashMap<K, V> { fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> { d.deserialize_map(MapVis(std::marker::PhantomData)) } }

#[derive(Clone, Debug)]
pub struct FxHashSet<K> { e: Vec<K> }
impl<K> Default for FxHashSet<K> { fn default() -> Self { FxHashSet { e: Vec::with_capacity(4) } } }
impl<K: Eq> FxHashSet<K> {
    pub fn insert(&mut self, k: K) -> bool { if self.e.iter().any(|x| *x == k) { false } else { self.e.push(k); true } }
    pub fn contains<Q: ?Sized + Eq>(&self, k: &Q) -> bool where K: Borrow<Q> { self.e.iter().any(|x| x.borrow() == k) }
    pub fn remove<Q: ?Sized + Eq>(&mut self, k: &Q) -> bool where K: Borrow<Q> { match self.e.iter().position(|x| x.borrow() == k) { Some(i) => { self.e.swap_remove(i); true } None => false } }
    pub fn len(&self) -> usize { self.e.len() }
    pub fn is_empty(&self) -> bool { self.e.is_empty() }
    pub fn iter(&self) -> std::slice::Iter<'_, K> { self.e.iter() }
}
impl<K: Eq> Extend<K> for FxHashSet<K> { fn extend<T: IntoIterator<Item = K>>(&mut self, it: T) { for k in it { self.insert(k); } } }
impl<K: Eq> FromIterator<K> for FxHashSet<K> { fn from_iter<T: IntoIterator<Item = K>>(it: T) -> Self { let mut m = Self::default(); m.extend(it); m } }
