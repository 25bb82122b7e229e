//! Slab containers.
use crabslab::*;
/// A value that is not written where it does not fit.
#[derive(Clone, Copy, Default)]
pub struct Picky { pub a: u32, pub b: u32 }
impl SlabItem for Picky {
    const SLAB_SIZE: usize = 2;
    fn read_slab(index: usize, slab: &[u32]) -> Self {
        if slab.len() < 2 || index > slab.len() - 2 { Picky { a: 0, b: 0 } } else { Picky { a: slab[index], b: slab[index + 1] } }
    }
    fn write_slab(&self, index: usize, slab: &mut [u32]) -> usize {
        if slab.len() < 2 || index > slab.len() - 2 { return index; }
        slab[index] = self.a;
        slab[index + 1] = self.b;
        index + 2
    }
}
macro_rules! slab {
    ($name:ident, $b:ty) => {
        pub mod $name {
            use super::*;
            type B = $b;
            pub fn len(s: &B) -> usize { Slab::len(s) }
            pub fn is_empty(s: &B) -> bool { Slab::is_empty(s) }
            pub fn contains<T: SlabItem>(s: &B, id: Id<T>) -> bool { Slab::contains(s, id) }
            pub fn read<T: SlabItem + Default>(s: &B, id: Id<T>) -> T { Slab::read(s, id) }
            pub fn read_unchecked<T: SlabItem>(s: &B, id: Id<T>) -> T { Slab::read_unchecked(s, id) }
            pub fn read_into_if_some<T: SlabItem>(s: &B, id: Id<T>, t: &mut T) { Slab::read_into_if_some(s, id, t) }
            pub fn read_vec<T: SlabItem + Default>(s: &B, a: Array<T>) -> Vec<T> { Slab::read_vec(s, a) }
            pub fn write_indexed<T: SlabItem>(s: &mut B, t: &T, index: usize) -> usize { Slab::write_indexed(s, t, index) }
            pub fn write_indexed_slice<T: SlabItem>(s: &mut B, t: &[T], index: usize) -> usize { Slab::write_indexed_slice(s, t, index) }
            pub fn write<T: SlabItem>(s: &mut B, id: Id<T>, t: &T) { Slab::write(s, id, t) }
            pub fn write_array<T: SlabItem>(s: &mut B, a: Array<T>, t: &[T]) { Slab::write_array(s, a, t) }
            pub fn picky_indexed(s: &mut B, t: &Picky, index: usize) -> usize { Slab::write_indexed(s, t, index) }
            pub fn picky_id(s: &mut B, t: &Picky, id: Id<Picky>) { Slab::write(s, id, t) }
            pub fn picky_slice(s: &mut B, t: &[Picky; 2], index: usize) -> usize { Slab::write_indexed_slice(s, &t[..], index) }
        }
    };
}
macro_rules! growable {
    ($name:ident, $b:ty) => {
        pub mod $name {
            use super::*;
            type B = $b;
            pub fn capacity(s: &B) -> usize { GrowableSlab::capacity(s) }
            pub fn reserve_capacity(s: &mut B, n: usize) { GrowableSlab::reserve_capacity(s, n) }
            pub fn increment_len(s: &mut B, n: usize) -> usize { GrowableSlab::increment_len(s, n) }
            pub fn maybe_expand_to_fit<T: SlabItem>(s: &mut B, n: usize) { GrowableSlab::maybe_expand_to_fit::<T>(s, n) }
            pub fn allocate<T: SlabItem>(s: &mut B) -> Id<T> { GrowableSlab::allocate::<T>(s) }
            pub fn allocate_array<T: SlabItem>(s: &mut B, n: usize) -> Array<T> { GrowableSlab::allocate_array::<T>(s, n) }
            pub fn append<T: SlabItem>(s: &mut B, t: &T) -> Id<T> { GrowableSlab::append(s, t) }
            pub fn append_array<T: SlabItem>(s: &mut B, t: &[T]) -> Array<T> { GrowableSlab::append_array(s, t) }
        }
    };
}
/// Small clients: several operations one after the other.
macro_rules! client {
    ($name:ident, $b:ty) => {
        pub mod $name {
            use super::*;
            type B = $b;
            pub fn write_read<T: SlabItem + Default>(s: &mut B, id: Id<T>, t: &T) -> T {
                Slab::write(s, id, t);
                Slab::read(s, id)
            }
            pub fn write_other<T: SlabItem + Default, S: SlabItem>(s: &mut B, id: Id<T>, other: Id<S>, t: &S) -> T {
                Slab::write(s, other, t);
                Slab::read(s, id)
            }
            pub fn write_array_read<T: SlabItem + Default>(s: &mut B, a: Array<T>, t: &[T], i: usize) -> T {
                Slab::write_array(s, a, t);
                Slab::read(s, a.at(i))
            }
            pub fn write_array_read_vec<T: SlabItem + Default>(s: &mut B, a: Array<T>, t: &[T]) -> Vec<T> {
                Slab::write_array(s, a, t);
                Slab::read_vec(s, a)
            }
            pub fn write_slice_read<T: SlabItem + Default>(s: &mut B, t: &[T], index: usize, id: Id<T>) -> T {
                Slab::write_indexed_slice(s, t, index);
                Slab::read(s, id)
            }
        }
    };
}
macro_rules! growing_client {
    ($name:ident, $b:ty) => {
        pub mod $name {
            use super::*;
            type B = $b;
            pub fn append_read<T: SlabItem + Default>(s: &mut B, t: &T) -> T {
                let id = GrowableSlab::append(s, t);
                Slab::read(s, id)
            }
            pub fn append_append_read<T: SlabItem + Default, S: SlabItem>(s: &mut B, t: &T, other: &S) -> T {
                let id = GrowableSlab::append(s, t);
                GrowableSlab::append(s, other);
                Slab::read(s, id)
            }
            pub fn append_array_read<T: SlabItem + Default>(s: &mut B, t: &[T], i: usize) -> T {
                let a = GrowableSlab::append_array(s, t);
                Slab::read(s, a.at(i))
            }
            pub fn append_array_append_read<T: SlabItem + Default, S: SlabItem>(s: &mut B, t: &[T], other: &S, i: usize) -> T {
                let a = GrowableSlab::append_array(s, t);
                GrowableSlab::append(s, other);
                Slab::read(s, a.at(i))
            }
            pub fn append_read_vec<T: SlabItem + Default>(s: &mut B, t: &[T]) -> Vec<T> {
                let a = GrowableSlab::append_array(s, t);
                Slab::read_vec(s, a)
            }
            pub fn allocate_write_read<T: SlabItem + Default>(s: &mut B, t: &T) -> (bool, T) {
                let id = GrowableSlab::allocate::<T>(s);
                Slab::write(s, id, t);
                (Slab::contains(s, id), Slab::read(s, id))
            }
        }
    };
}
client!(c_slice, [u32]);
client!(c_vec, Vec<u32>);
client!(c_cpu, CpuSlab<Vec<u32>>);
growing_client!(cg_vec, Vec<u32>);
growing_client!(cg_cpu, CpuSlab<Vec<u32>>);
slab!(s_slice, [u32]);
slab!(s_vec, Vec<u32>);
slab!(s_cpu, CpuSlab<Vec<u32>>);
slab!(s_cpu2, CpuSlab<CpuSlab<Vec<u32>>>);
growable!(g_vec, Vec<u32>);
growable!(g_cpu, CpuSlab<Vec<u32>>);
growable!(g_cpu2, CpuSlab<CpuSlab<Vec<u32>>>);
pub mod cpu {
    use super::*;
    pub fn new(v: Vec<u32>) -> CpuSlab<Vec<u32>> { CpuSlab::new(v) }
    pub fn into_inner(s: CpuSlab<Vec<u32>>) -> Vec<u32> { s.into_inner() }
    pub fn as_ref(s: &CpuSlab<Vec<u32>>) -> &Vec<u32> { s.as_ref() }
    pub fn as_mut(s: &mut CpuSlab<Vec<u32>>) -> &mut Vec<u32> { s.as_mut() }
}
