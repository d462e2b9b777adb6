//! Stands in for the crate of this name, of which the cargo cache has no copy: what `icount` uses
//! of it.
use std::marker::PhantomData;
use std::ops::{Index, IndexMut};
pub use enum_macros::Enumerated;
pub trait Enumerated: Copy + 'static {
    const SIZE: usize;
    const VARIANTS: &'static [Self];
    fn position(self) -> usize;
}
pub struct EnumMap<K, V, const N: usize> {
    data: [V; N],
    keys: PhantomData<K>,
}
impl<K: Enumerated, V: Default, const N: usize> EnumMap<K, V, N> {
    pub fn new_default() -> Self {
        EnumMap { data: std::array::from_fn(|_| V::default()), keys: PhantomData }
    }
    pub fn iter(&self) -> std::slice::Iter<'_, V> {
        self.data.iter()
    }
}
impl<K: Enumerated, V, const N: usize> Index<K> for EnumMap<K, V, N> {
    type Output = V;
    fn index(&self, k: K) -> &V {
        &self.data[k.position()]
    }
}
impl<K: Enumerated, V, const N: usize> IndexMut<K> for EnumMap<K, V, N> {
    fn index_mut(&mut self, k: K) -> &mut V {
        &mut self.data[k.position()]
    }
}
