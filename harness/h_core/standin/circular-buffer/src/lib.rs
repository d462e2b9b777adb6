//! Stands in for the crate of this name, of which the cargo cache has no copy: what
//! `memory-tracing` uses of it. A full buffer forgets its oldest element.
#![no_std]
use core::mem::MaybeUninit;
use core::ops::Index;
pub struct CircularBuffer<const N: usize, T> {
    len: usize,
    start: usize,
    items: [MaybeUninit<T>; N],
}
impl<const N: usize, T> CircularBuffer<N, T> {
    pub const fn new() -> Self {
        CircularBuffer { len: 0, start: 0, items: [const { MaybeUninit::uninit() }; N] }
    }
    pub fn len(&self) -> usize {
        self.len
    }
    pub fn push_back(&mut self, v: T) {
        if self.len == N {
            unsafe { self.items[self.start].assume_init_drop() };
            self.items[self.start].write(v);
            self.start = (self.start + 1) % N;
        } else {
            self.items[(self.start + self.len) % N].write(v);
            self.len += 1;
        }
    }
}
impl<const N: usize, T> Index<usize> for CircularBuffer<N, T> {
    type Output = T;
    fn index(&self, i: usize) -> &T {
        assert!(i < self.len);
        unsafe { self.items[(self.start + i) % N].assume_init_ref() }
    }
}
