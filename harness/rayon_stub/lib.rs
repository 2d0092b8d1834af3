//! The contract of rayon, executable by the verifier: a parallel iterator is a finite family of items indexed by i;
//! `for_each` hands every item to the closure exactly once, in an unknown order, on unknown threads, so the verifier
//! runs the closure for ONE ARBITRARY index i (hx_par_index) and checks that it only touches the i-th chunk.
#![allow(clippy::all)]
extern "C" {
    fn hx_par_threads() -> usize;
    fn hx_par_index() -> usize;
    fn hx_par_exists(i: usize, size: usize, len: usize) -> bool;
    fn hx_par_start(i: usize, size: usize) -> usize;
    fn hx_par_region(p: *mut u8, start: usize, len: usize, total: usize);
}
#[inline(always)] pub fn current_num_threads() -> usize { unsafe { hx_par_threads() } }
pub mod iter {
    use super::*;
    pub trait ParallelIterator: Sized + Send {
        type Item: Send;
        unsafe fn hx_exists(&self, i: usize) -> bool;
        unsafe fn hx_get(self, i: usize) -> Self::Item;
        #[inline(always)] fn for_each<F: Fn(Self::Item) + Sync + Send>(self, f: F) { unsafe { let i = hx_par_index(); if self.hx_exists(i) { f(self.hx_get(i)) } } }
        #[inline(always)] fn map<R: Send, F: Fn(Self::Item) -> R + Sync + Send>(self, f: F) -> Map<Self, F> { Map(self, f) }
    }
    pub trait IndexedParallelIterator: ParallelIterator {
        #[inline(always)] fn zip<Z: IntoParallelIterator>(self, z: Z) -> Zip<Self, Z::Iter> { Zip(self, z.into_par_iter()) }
        #[inline(always)] fn enumerate(self) -> Enumerate<Self> { Enumerate(self) }
        #[inline(always)] fn with_min_len(self, _: usize) -> Self { self }
        #[inline(always)] fn with_max_len(self, _: usize) -> Self { self }
    }
    pub trait IntoParallelIterator { type Item: Send; type Iter: ParallelIterator<Item = Self::Item>; fn into_par_iter(self) -> Self::Iter; }
    impl<T: ParallelIterator> IntoParallelIterator for T { type Item = T::Item; type Iter = T; #[inline(always)] fn into_par_iter(self) -> T { self } }
    pub struct Zip<A, B>(A, B);
    impl<A: ParallelIterator, B: ParallelIterator> ParallelIterator for Zip<A, B> {
        type Item = (A::Item, B::Item);
        #[inline(always)] unsafe fn hx_exists(&self, i: usize) -> bool { let a = self.0.hx_exists(i); let b = self.1.hx_exists(i); a & b }
        #[inline(always)] unsafe fn hx_get(self, i: usize) -> Self::Item { (self.0.hx_get(i), self.1.hx_get(i)) }
    }
    impl<A: IndexedParallelIterator, B: IndexedParallelIterator> IndexedParallelIterator for Zip<A, B> {}
    pub struct Enumerate<A>(A);
    impl<A: ParallelIterator> ParallelIterator for Enumerate<A> {
        type Item = (usize, A::Item);
        #[inline(always)] unsafe fn hx_exists(&self, i: usize) -> bool { self.0.hx_exists(i) }
        #[inline(always)] unsafe fn hx_get(self, i: usize) -> Self::Item { (i, self.0.hx_get(i)) }
    }
    impl<A: IndexedParallelIterator> IndexedParallelIterator for Enumerate<A> {}
    pub struct Map<A, F>(A, F);
    impl<A: ParallelIterator, R: Send, F: Fn(A::Item) -> R + Sync + Send> ParallelIterator for Map<A, F> {
        type Item = R;
        #[inline(always)] unsafe fn hx_exists(&self, i: usize) -> bool { self.0.hx_exists(i) }
        #[inline(always)] unsafe fn hx_get(self, i: usize) -> R { (self.1)(self.0.hx_get(i)) }
    }
    impl<A: IndexedParallelIterator, R: Send, F: Fn(A::Item) -> R + Sync + Send> IndexedParallelIterator for Map<A, F> {}
}
pub mod slice {
    use super::*; use iter::*; use core::marker::PhantomData;
    pub struct Chunks<'a, T>(*const T, usize, usize, PhantomData<&'a T>);
    pub struct ChunksMut<'a, T>(*mut T, usize, usize, PhantomData<&'a mut T>);
    unsafe impl<T: Sync> Send for Chunks<'_, T> {}
    unsafe impl<T: Send> Send for ChunksMut<'_, T> {}
    impl<'a, T: Sync + 'a> ParallelIterator for Chunks<'a, T> {
        type Item = &'a [T];
        #[inline(always)] unsafe fn hx_exists(&self, i: usize) -> bool { hx_par_exists(i, self.2, self.1) }
        #[inline(always)] unsafe fn hx_get(self, i: usize) -> &'a [T] { let s = hx_par_start(i, self.2); let r = self.1 - s; core::slice::from_raw_parts(self.0.add(s), if r < self.2 { r } else { self.2 }) }
    }
    impl<'a, T: Sync + 'a> IndexedParallelIterator for Chunks<'a, T> {}
    impl<'a, T: Send + 'a> ParallelIterator for ChunksMut<'a, T> {
        type Item = &'a mut [T];
        #[inline(always)] unsafe fn hx_exists(&self, i: usize) -> bool {
            let e = hx_par_exists(i, self.2, self.1); let z = core::mem::size_of::<T>();
            if e { let s = hx_par_start(i, self.2); let r = self.1 - s; hx_par_region(self.0.cast(), s * z, (if r < self.2 { r } else { self.2 }) * z, self.1 * z) }
            e
        }
        #[inline(always)] unsafe fn hx_get(self, i: usize) -> &'a mut [T] { let s = hx_par_start(i, self.2); let r = self.1 - s; core::slice::from_raw_parts_mut(self.0.add(s), if r < self.2 { r } else { self.2 }) }
    }
    impl<'a, T: Send + 'a> IndexedParallelIterator for ChunksMut<'a, T> {}
    pub trait ParallelSlice<T: Sync> { fn hx_s(&self) -> &[T];
        #[inline(always)] #[track_caller] fn par_chunks(&self, n: usize) -> Chunks<'_, T> { assert!(n != 0, "chunk_size must not be zero"); let s = self.hx_s(); Chunks(s.as_ptr(), s.len(), n, PhantomData) }
        #[inline(always)] fn par_iter(&self) -> Map<Chunks<'_, T>, fn(&[T]) -> &T> where T: Send { Map1::m(Chunks(self.hx_s().as_ptr(), self.hx_s().len(), 1, PhantomData)) }
    }
    pub struct Map1; impl Map1 { #[inline(always)] fn m<'a, T: Sync + Send>(c: Chunks<'a, T>) -> Map<Chunks<'a, T>, fn(&[T]) -> &T> { c.map((|s: &[T]| unsafe { &*s.as_ptr() }) as fn(&[T]) -> &T) } }
    impl<T: Sync> ParallelSlice<T> for [T] { #[inline(always)] fn hx_s(&self) -> &[T] { self } }
    pub trait ParallelSliceMut<T: Send> { fn hx_m(&mut self) -> &mut [T];
        #[inline(always)] #[track_caller] fn par_chunks_mut(&mut self, n: usize) -> ChunksMut<'_, T> { assert!(n != 0, "chunk_size must not be zero"); let s = self.hx_m(); ChunksMut(s.as_mut_ptr(), s.len(), n, PhantomData) }
    }
    impl<T: Send> ParallelSliceMut<T> for [T] { #[inline(always)] fn hx_m(&mut self) -> &mut [T] { self } }
}
pub mod prelude { pub use crate::iter::*; pub use crate::slice::{ParallelSlice, ParallelSliceMut}; }
