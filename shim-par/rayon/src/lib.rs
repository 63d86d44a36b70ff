//! The contract assumed of the dependency `rayon` (1.x), for the part of its interface /repo uses, in executable form:
//! a parallel iterator over the chunks of a slice yields exactly the chunks of the sequential one, `zip` pairs them by
//! index and stops with the shorter side, `enumerate` adds the index, and `for_each` applies the operation to every
//! item exactly once, in an order that is not specified.  The order taken here is the reverse of the sequential one:
//! with the sequential order (the crate without the feature, checked by the other properties) every pair of rows is
//! seen in both orders.  The bounds (`Fn + Sync + Send`, `Send` items) are rayon's, so the ownership argument rustc
//! makes for the real crate is made here too.
pub mod iter {
    pub trait ParallelIterator: Sized + Send {
        type Item: Send;
        fn for_each<OP: Fn(Self::Item) + Sync + Send>(self, op: OP);
    }
    pub trait IndexedParallelIterator: ParallelIterator {
        fn len(&self) -> usize;
        /// # Safety
        /// every index below `len` at most once
        unsafe fn item(&self, i: usize) -> Self::Item;
        fn zip<Z: IntoParallelIterator>(self, other: Z) -> Zip<Self, Z::Iter> where Z::Iter: IndexedParallelIterator { Zip { a: self, b: other.into_par_iter() } }
        fn enumerate(self) -> Enumerate<Self> { Enumerate { a: self } }
    }
    pub trait IntoParallelIterator { type Item: Send; type Iter: ParallelIterator<Item = Self::Item>; fn into_par_iter(self) -> Self::Iter; }
    impl<T: ParallelIterator> IntoParallelIterator for T { type Item = T::Item; type Iter = T; fn into_par_iter(self) -> T { self } }
    fn run<I: IndexedParallelIterator, OP: Fn(I::Item) + Sync + Send>(it: I, op: OP) { let mut i = it.len(); while i > 0 { i -= 1; op(unsafe { it.item(i) }) } }
    pub struct Zip<A, B> { a: A, b: B }
    impl<A: IndexedParallelIterator, B: IndexedParallelIterator> ParallelIterator for Zip<A, B> { type Item = (A::Item, B::Item); fn for_each<OP: Fn(Self::Item) + Sync + Send>(self, op: OP) { run(self, op) } }
    impl<A: IndexedParallelIterator, B: IndexedParallelIterator> IndexedParallelIterator for Zip<A, B> { fn len(&self) -> usize { self.a.len().min(self.b.len()) } unsafe fn item(&self, i: usize) -> Self::Item { (self.a.item(i), self.b.item(i)) } }
    pub struct Enumerate<A> { a: A }
    impl<A: IndexedParallelIterator> ParallelIterator for Enumerate<A> { type Item = (usize, A::Item); fn for_each<OP: Fn(Self::Item) + Sync + Send>(self, op: OP) { run(self, op) } }
    impl<A: IndexedParallelIterator> IndexedParallelIterator for Enumerate<A> { fn len(&self) -> usize { self.a.len() } unsafe fn item(&self, i: usize) -> Self::Item { (i, self.a.item(i)) } }
    /// chunks of a shared slice; `n` whole chunks, or with a shorter last one
    pub struct Chunks<'a, T> { pub(crate) s: &'a [T], pub(crate) c: usize, pub(crate) n: usize }
    impl<'a, T: Sync> ParallelIterator for Chunks<'a, T> { type Item = &'a [T]; fn for_each<OP: Fn(Self::Item) + Sync + Send>(self, op: OP) { run(self, op) } }
    impl<'a, T: Sync> IndexedParallelIterator for Chunks<'a, T> { fn len(&self) -> usize { self.n } unsafe fn item(&self, i: usize) -> &'a [T] { let b = i * self.c; &self.s[b..(b + self.c).min(self.s.len())] } }
    pub struct ChunksMut<'a, T> { pub(crate) p: *mut T, pub(crate) l: usize, pub(crate) c: usize, pub(crate) n: usize, pub(crate) m: std::marker::PhantomData<&'a mut [T]> }
    unsafe impl<'a, T: Send> Send for ChunksMut<'a, T> {}
    impl<'a, T: Send> ParallelIterator for ChunksMut<'a, T> { type Item = &'a mut [T]; fn for_each<OP: Fn(Self::Item) + Sync + Send>(self, op: OP) { run(self, op) } }
    impl<'a, T: Send> IndexedParallelIterator for ChunksMut<'a, T> { fn len(&self) -> usize { self.n } unsafe fn item(&self, i: usize) -> &'a mut [T] { let b = i * self.c; std::slice::from_raw_parts_mut(self.p.add(b), self.c.min(self.l - b)) } }
}
pub mod slice {
    use crate::iter::{Chunks, ChunksMut};
    pub trait ParallelSlice<T: Sync> {
        fn as_parallel_slice(&self) -> &[T];
        fn par_chunks(&self, c: usize) -> Chunks<'_, T> { assert!(c != 0, "chunk_size must not be zero"); let s = self.as_parallel_slice(); Chunks { s, c, n: s.len().div_ceil(c) } }
        fn par_chunks_exact(&self, c: usize) -> Chunks<'_, T> { assert!(c != 0, "chunk_size must not be zero"); let s = self.as_parallel_slice(); Chunks { s, c, n: s.len() / c } }
    }
    impl<T: Sync> ParallelSlice<T> for [T] { fn as_parallel_slice(&self) -> &[T] { self } }
    pub trait ParallelSliceMut<T: Send> {
        fn as_parallel_slice_mut(&mut self) -> &mut [T];
        fn par_chunks_mut(&mut self, c: usize) -> ChunksMut<'_, T> { assert!(c != 0, "chunk_size must not be zero"); let s = self.as_parallel_slice_mut(); let l = s.len(); ChunksMut { p: s.as_mut_ptr(), l, c, n: l.div_ceil(c), m: std::marker::PhantomData } }
        fn par_chunks_exact_mut(&mut self, c: usize) -> ChunksMut<'_, T> { assert!(c != 0, "chunk_size must not be zero"); let s = self.as_parallel_slice_mut(); let l = s.len(); ChunksMut { p: s.as_mut_ptr(), l, c, n: l / c, m: std::marker::PhantomData } }
    }
    impl<T: Send> ParallelSliceMut<T> for [T] { fn as_parallel_slice_mut(&mut self) -> &mut [T] { self } }
}
pub mod prelude { pub use crate::iter::{IndexedParallelIterator, IntoParallelIterator, ParallelIterator}; pub use crate::slice::{ParallelSlice, ParallelSliceMut}; }
