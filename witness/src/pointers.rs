//! Ids and slab arrays.
use crabslab::*;
use core::cmp::Ordering;
use core::hash::Hash;
pub fn id_new<T>(i: u32) -> Id<T> { Id::new(i) }
pub fn id_none<T>() -> Id<T> { Id::NONE }
pub fn id_default<T>() -> Id<T> { Id::default() }
pub fn id_inner<T>(id: Id<T>) -> u32 { id.inner() }
pub fn id_index<T>(id: Id<T>) -> usize { id.index() }
pub fn id_is_none<T>(id: Id<T>) -> bool { id.is_none() }
pub fn id_is_some<T>(id: Id<T>) -> bool { id.is_some() }
pub fn id_into_u32<T>(id: Id<T>) -> u32 { id.into() }
pub fn id_from_u32<T>(i: u32) -> Id<T> { i.into() }
pub fn id_from_usize<T>(i: usize) -> Id<T> { i.into() }
pub fn id_clone<T>(id: &Id<T>) -> Id<T> { id.clone() }
pub fn id_eq<T>(a: &Id<T>, b: &Id<T>) -> bool { a == b }
pub fn id_ne<T>(a: &Id<T>, b: &Id<T>) -> bool { a != b }
pub fn id_lt<T>(a: &Id<T>, b: &Id<T>) -> bool { a < b }
pub fn id_le<T>(a: &Id<T>, b: &Id<T>) -> bool { a <= b }
pub fn id_gt<T>(a: &Id<T>, b: &Id<T>) -> bool { a > b }
pub fn id_ge<T>(a: &Id<T>, b: &Id<T>) -> bool { a >= b }
pub fn id_cmp<T>(a: &Id<T>, b: &Id<T>) -> Ordering { a.cmp(b) }
pub fn id_partial_cmp<T>(a: &Id<T>, b: &Id<T>) -> Option<Ordering> { a.partial_cmp(b) }
pub fn u32_cmp(a: &u32, b: &u32) -> Ordering { a.cmp(b) }
pub fn id_hash<T, H: core::hash::Hasher>(id: &Id<T>, h: &mut H) { id.hash(h) }
pub fn u32_hash<H: core::hash::Hasher>(i: &u32, h: &mut H) { i.hash(h) }
pub fn id_add_usize<T>(id: Id<T>, n: usize) -> Id<T> { id + n }
pub fn id_add_u32<T>(id: Id<T>, n: u32) -> Id<T> { id + n }
pub fn usize_add_id<T>(n: usize, id: Id<T>) -> Id<T> { n + id }
pub fn u32_add_id<T>(n: u32, id: Id<T>) -> Id<T> { n + id }

pub fn array_new<T>(i: u32, n: u32) -> Array<T> { Array::new(i, n) }
pub fn array_none<T>() -> Array<T> { Array::NONE }
pub fn array_default<T: SlabItem>() -> Array<T> { Array::default() }
pub fn array_from_id<T>(id: Id<T>) -> Array<T> { Array::from(id) }
pub fn array_clone<T>(a: &Array<T>) -> Array<T> { a.clone() }
pub fn array_eq<T>(a: &Array<T>, b: &Array<T>) -> bool { a == b }
pub fn array_len<T>(a: Array<T>) -> usize { a.len() }
pub fn array_is_empty<T>(a: Array<T>) -> bool { a.is_empty() }
pub fn array_is_null<T>(a: Array<T>) -> bool { a.is_null() }
pub fn array_starting_index<T>(a: Array<T>) -> usize { a.starting_index() }
pub fn array_at<T: SlabItem>(a: Array<T>, i: usize) -> Id<T> { a.at(i) }
pub fn array_iter<T: SlabItem>(a: Array<T>) -> ArrayIter<T> { a.iter() }
pub fn array_iter_next<T: SlabItem>(it: &mut ArrayIter<T>) -> Option<Id<T>> { it.next() }
/// All ids of an array, in iteration order.
pub fn array_iter_all<T: SlabItem>(a: Array<T>, f: &mut impl FnMut(Id<T>)) { for id in a.iter() { f(id) } }
pub fn array_into_u32_array<T: SlabItem>(a: Array<T>) -> Array<u32> { a.into_u32_array() }
pub fn array_raw_contains(a: Array<u32>, i: usize) -> bool { a.contains_index(i) }
pub fn array_union(a: &mut Array<u32>, b: &Array<u32>) { a.union(b) }
#[cfg(not(target_arch = "spirv"))]
pub fn array_sub_slab<'a, T: SlabItem>(a: &'a Array<T>, slab: &'a [u32]) -> &'a [u32] { a.sub_slab(slab) }
pub fn slab_size<T: SlabItem>() -> usize { T::SLAB_SIZE }
pub fn saturating_sub(a: usize, b: usize) -> usize { crabslab::__saturating_sub(a, b) }
pub fn slice_index<T>(s: &[T], i: usize) -> &T { crabslab::slice_index(s, i) }
pub fn slice_index_mut<T>(s: &mut [T], i: usize) -> &mut T { crabslab::slice_index_mut(s, i) }
pub fn array_index<const N: usize, T>(s: &[T; N], i: usize) -> &T { crabslab::array_index(s, i) }
pub fn array_index_mut<const N: usize, T>(s: &mut [T; N], i: usize) -> &mut T { crabslab::array_index_mut(s, i) }
