//! The helpers that have a variant of their own in the shader build.
use crabslab::*;
pub fn slice<T>(s: &[T], index: usize) -> &T { slice_index(s, index) }
pub fn slice_mut<T>(s: &mut [T], index: usize) -> &mut T { slice_index_mut(s, index) }
pub fn slice_set<T: Copy>(s: &mut [T], index: usize, t: T) { *slice_index_mut(s, index) = t }
pub fn array<T, const N: usize>(s: &[T; N], index: usize) -> &T { array_index(s, index) }
pub fn array_mut<T, const N: usize>(s: &mut [T; N], index: usize) -> &mut T { array_index_mut(s, index) }
pub fn array_set<T: Copy, const N: usize>(s: &mut [T; N], index: usize, t: T) { *array_index_mut(s, index) = t }
pub fn saturating_sub(a: usize, b: usize) -> usize { __saturating_sub(a, b) }
