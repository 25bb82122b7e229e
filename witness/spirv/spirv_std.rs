//! Stand-in for the part of `spirv-std` that the library uses (the real crate builds with rust-gpu's compiler only).
//! The analyser gives these two functions their documented meaning: the element at an index that must be in range.
#![no_std]
pub mod arch {
    pub trait IndexUnchecked<T> {
        /// # Safety
        /// The index is in range.
        unsafe fn index_unchecked(&self, index: usize) -> &T;
        /// # Safety
        /// The index is in range.
        unsafe fn index_unchecked_mut(&mut self, index: usize) -> &mut T;
    }
    impl<T> IndexUnchecked<T> for [T] {
        unsafe fn index_unchecked(&self, index: usize) -> &T { unsafe { self.get_unchecked(index) } }
        unsafe fn index_unchecked_mut(&mut self, index: usize) -> &mut T { unsafe { self.get_unchecked_mut(index) } }
    }
    impl<T, const N: usize> IndexUnchecked<T> for [T; N] {
        unsafe fn index_unchecked(&self, index: usize) -> &T { unsafe { self.as_slice().get_unchecked(index) } }
        unsafe fn index_unchecked_mut(&mut self, index: usize) -> &mut T { unsafe { self.as_mut_slice().get_unchecked_mut(index) } }
    }
}
