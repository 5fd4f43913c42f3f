//! `HashMap`/`HashSet` are the real ones with a hasher that does not depend on the key, so that symbolic keys
//! are compared only by `==`.
pub use ::std::collections::{btree_map, btree_set, binary_heap, linked_list, vec_deque, BTreeMap, BTreeSet, BinaryHeap, LinkedList, TryReserveError, VecDeque};
use ::std::borrow::Borrow;
use ::std::collections as real;
use ::std::hash::{BuildHasher, Hash, Hasher};
use ::std::ops::{Deref, DerefMut};

#[derive(Clone, Copy, Default, Debug)]
pub struct ConstState;
pub struct ConstHasher;
impl Hasher for ConstHasher {
    fn finish(&self) -> u64 { 0x1234_5678_9abc_def0 }
    fn write(&mut self, _: &[u8]) {}
    fn write_u8(&mut self, _: u8) {}
    fn write_u16(&mut self, _: u16) {}
    fn write_u32(&mut self, _: u32) {}
    fn write_u64(&mut self, _: u64) {}
    fn write_usize(&mut self, _: usize) {}
}
impl BuildHasher for ConstState {
    type Hasher = ConstHasher;
    fn build_hasher(&self) -> ConstHasher { ConstHasher }
}

pub mod hash_map {
    pub use super::HashMap;
    pub use ::std::collections::hash_map::{DefaultHasher, Drain, Entry, IntoIter, IntoKeys, IntoValues, Iter, IterMut, Keys, OccupiedEntry, RandomState, VacantEntry, Values, ValuesMut};
}
pub mod hash_set {
    pub use super::HashSet;
    pub use ::std::collections::hash_set::{Drain, IntoIter, Iter};
}

#[derive(Clone)]
pub struct HashMap<K, V>(real::HashMap<K, V, ConstState>);
impl<K, V> HashMap<K, V> {
    pub fn new() -> Self { HashMap(real::HashMap::with_hasher(ConstState)) }
    pub fn with_capacity(n: usize) -> Self { HashMap(real::HashMap::with_capacity_and_hasher(n, ConstState)) }
    pub fn into_keys(self) -> real::hash_map::IntoKeys<K, V> { self.0.into_keys() }
    pub fn into_values(self) -> real::hash_map::IntoValues<K, V> { self.0.into_values() }
}
impl<K, V> Default for HashMap<K, V> { fn default() -> Self { Self::new() } }
impl<K, V> Deref for HashMap<K, V> { type Target = real::HashMap<K, V, ConstState>; fn deref(&self) -> &Self::Target { &self.0 } }
impl<K, V> DerefMut for HashMap<K, V> { fn deref_mut(&mut self) -> &mut Self::Target { &mut self.0 } }
impl<K: Eq + Hash, V: PartialEq> PartialEq for HashMap<K, V> { fn eq(&self, o: &Self) -> bool { self.0 == o.0 } }
impl<K: Eq + Hash, V: Eq> Eq for HashMap<K, V> {}
impl<K: ::std::fmt::Debug, V: ::std::fmt::Debug> ::std::fmt::Debug for HashMap<K, V> { fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result { self.0.fmt(f) } }
impl<K, V> IntoIterator for HashMap<K, V> { type Item = (K, V); type IntoIter = real::hash_map::IntoIter<K, V>; fn into_iter(self) -> Self::IntoIter { self.0.into_iter() } }
impl<'a, K, V> IntoIterator for &'a HashMap<K, V> { type Item = (&'a K, &'a V); type IntoIter = real::hash_map::Iter<'a, K, V>; fn into_iter(self) -> Self::IntoIter { self.0.iter() } }
impl<'a, K, V> IntoIterator for &'a mut HashMap<K, V> { type Item = (&'a K, &'a mut V); type IntoIter = real::hash_map::IterMut<'a, K, V>; fn into_iter(self) -> Self::IntoIter { self.0.iter_mut() } }
impl<K: Eq + Hash, V> FromIterator<(K, V)> for HashMap<K, V> { fn from_iter<I: IntoIterator<Item = (K, V)>>(i: I) -> Self { HashMap(i.into_iter().collect()) } }
impl<K: Eq + Hash, V> Extend<(K, V)> for HashMap<K, V> { fn extend<I: IntoIterator<Item = (K, V)>>(&mut self, i: I) { self.0.extend(i) } }
impl<K: Eq + Hash, V, const N: usize> From<[(K, V); N]> for HashMap<K, V> { fn from(a: [(K, V); N]) -> Self { a.into_iter().collect() } }
impl<K: Eq + Hash + Borrow<Q>, Q: Eq + Hash + ?Sized, V> ::std::ops::Index<&Q> for HashMap<K, V> { type Output = V; fn index(&self, k: &Q) -> &V { &self.0[k] } }

#[derive(Clone)]
pub struct HashSet<K>(real::HashSet<K, ConstState>);
impl<K> HashSet<K> {
    pub fn new() -> Self { HashSet(real::HashSet::with_hasher(ConstState)) }
    pub fn with_capacity(n: usize) -> Self { HashSet(real::HashSet::with_capacity_and_hasher(n, ConstState)) }
}
impl<K> Default for HashSet<K> { fn default() -> Self { Self::new() } }
impl<K> Deref for HashSet<K> { type Target = real::HashSet<K, ConstState>; fn deref(&self) -> &Self::Target { &self.0 } }
impl<K> DerefMut for HashSet<K> { fn deref_mut(&mut self) -> &mut Self::Target { &mut self.0 } }
impl<K: Eq + Hash> PartialEq for HashSet<K> { fn eq(&self, o: &Self) -> bool { self.0 == o.0 } }
impl<K: ::std::fmt::Debug> ::std::fmt::Debug for HashSet<K> { fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result { self.0.fmt(f) } }
impl<K> IntoIterator for HashSet<K> { type Item = K; type IntoIter = real::hash_set::IntoIter<K>; fn into_iter(self) -> Self::IntoIter { self.0.into_iter() } }
impl<'a, K> IntoIterator for &'a HashSet<K> { type Item = &'a K; type IntoIter = real::hash_set::Iter<'a, K>; fn into_iter(self) -> Self::IntoIter { self.0.iter() } }
impl<K: Eq + Hash> FromIterator<K> for HashSet<K> { fn from_iter<I: IntoIterator<Item = K>>(i: I) -> Self { HashSet(i.into_iter().collect()) } }
impl<K: Eq + Hash> Extend<K> for HashSet<K> { fn extend<I: IntoIterator<Item = K>>(&mut self, i: I) { self.0.extend(i) } }

// serde support, as for the real types
#[cfg(feature = "serde")]
mod ser {
    use super::*;
    use serde::{Deserialize, Deserializer, Serialize, Serializer};
    impl<K: Serialize, V: Serialize> Serialize for HashMap<K, V> { fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { self.0.serialize(s) } }
    impl<'de, K: Deserialize<'de> + Eq + Hash, V: Deserialize<'de>> Deserialize<'de> for HashMap<K, V> { fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> { real::HashMap::<K, V, ConstState>::deserialize(d).map(HashMap) } }
}
