//! Slab access in a shader.
use crabslab::*;
pub mod s_slice {
    use super::*;
    type B = [u32];
    pub fn len(s: &B) -> usize { Slab::len(s) }
    pub fn is_empty(s: &B) -> bool { Slab::is_empty(s) }
    pub fn contains<T: SlabItem>(s: &B, id: Id<T>) -> bool { Slab::contains(s, id) }
    pub fn read<T: SlabItem + Default>(s: &B, id: Id<T>) -> T { Slab::read(s, id) }
    pub fn read_unchecked<T: SlabItem>(s: &B, id: Id<T>) -> T { Slab::read_unchecked(s, id) }
    pub fn read_into_if_some<T: SlabItem>(s: &B, id: Id<T>, t: &mut T) { Slab::read_into_if_some(s, id, t) }
    pub fn write_indexed<T: SlabItem>(s: &mut B, t: &T, index: usize) -> usize { Slab::write_indexed(s, t, index) }
    pub fn write_indexed_slice<T: SlabItem>(s: &mut B, t: &[T], index: usize) -> usize { Slab::write_indexed_slice(s, t, index) }
    pub fn write<T: SlabItem>(s: &mut B, id: Id<T>, t: &T) { Slab::write(s, id, t) }
    pub fn write_array<T: SlabItem>(s: &mut B, a: Array<T>, t: &[T]) { Slab::write_array(s, a, t) }
}
