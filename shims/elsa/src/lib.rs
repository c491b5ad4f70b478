//! Type-level stand-in for `elsa`.
use std::collections::HashMap;
pub struct FrozenMap<K, V> { map: std::cell::UnsafeCell<HashMap<K, V>> }
impl<K, V> Default for FrozenMap<K, V> { fn default() -> Self { unimplemented!() } }
impl<K, V> Clone for FrozenMap<K, V> { fn clone(&self) -> Self { unimplemented!() } }
impl<K: Eq + std::hash::Hash, V> FrozenMap<K, V> {
    pub fn new() -> Self { unimplemented!() }
    pub fn into_map(self) -> HashMap<K, V> { self.map.into_inner() }
    pub fn map_get<Q: ?Sized, T, F: FnOnce(&V) -> T>(&self, _k: &Q, _f: F) -> Option<T> where K: std::borrow::Borrow<Q> { unimplemented!() }
    pub fn len(&self) -> usize { unimplemented!() }
    pub fn is_empty(&self) -> bool { unimplemented!() }
}
impl<K: Eq + std::hash::Hash, V: std::ops::Deref> FrozenMap<K, V> {
    pub fn insert(&self, _k: K, _v: V) -> &V::Target { unimplemented!() }
    pub fn get<Q: ?Sized>(&self, _k: &Q) -> Option<&V::Target> where K: std::borrow::Borrow<Q> { unimplemented!() }
}
