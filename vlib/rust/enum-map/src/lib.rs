//! Stand-in for the parts of the enum-map crate used by the project (the real crate is not available offline).
pub use enum_map_derive::Enum;
use std::marker::PhantomData;
use std::ops::{Index, IndexMut};
pub trait Enum: Sized + Copy {
    const LENGTH: usize;
    fn into_usize(self) -> usize;
    fn from_usize(n: usize) -> Self;
}
#[derive(Debug, Clone, PartialEq, Eq)]
pub struct EnumMap<K: Enum, V> { data: Vec<V>, k: PhantomData<K> }
impl<K: Enum, V> EnumMap<K, V> {
    pub fn from_fn<F: FnMut(K) -> V>(mut f: F) -> Self { EnumMap { data: (0..K::LENGTH).map(|i| f(K::from_usize(i))).collect(), k: PhantomData } }
    pub fn from_pairs(pairs: Vec<(K, V)>) -> Self {
        let mut slots: Vec<Option<V>> = (0..K::LENGTH).map(|_| None).collect();
        for (k, v) in pairs { slots[k.into_usize()] = Some(v); }
        EnumMap { data: slots.into_iter().map(|v| v.expect("enum_map! misses a key")).collect(), k: PhantomData }
    }
    pub fn values(&self) -> std::slice::Iter<'_, V> { self.data.iter() }
    pub fn values_mut(&mut self) -> std::slice::IterMut<'_, V> { self.data.iter_mut() }
    pub fn iter(&self) -> impl Iterator<Item = (K, &V)> { self.data.iter().enumerate().map(|(i, v)| (K::from_usize(i), v)) }
    pub fn map<U, F: FnMut(K, V) -> U>(self, mut f: F) -> EnumMap<K, U> { EnumMap { data: self.data.into_iter().enumerate().map(|(i, v)| f(K::from_usize(i), v)).collect(), k: PhantomData } }
}
impl<K: Enum, V> Index<K> for EnumMap<K, V> { type Output = V; fn index(&self, k: K) -> &V { &self.data[k.into_usize()] } }
impl<K: Enum, V> IndexMut<K> for EnumMap<K, V> { fn index_mut(&mut self, k: K) -> &mut V { &mut self.data[k.into_usize()] } }
#[macro_export]
macro_rules! enum_map { ( $( $k:path => $v:expr ),* $(,)? ) => { $crate::EnumMap::from_pairs(vec![ $( ($k, $v) ),* ]) } }
