//! Field names that occur in generated code.
use super::*;
#[derive(Clone, Default, SlabItem)]
#[offsets]
pub struct Names { pub index: u32, pub slab: u64, pub original_index: i32, pub hash: u8, pub slab_size: u64, pub __0: u32, pub __1: i64, pub r#type: f32, pub __size: u16, pub self_: bool }
codec!(d_names, [], [], Names);
fields!(o_names, [], Names, {
    index: index, u32, OFFSET_OF_INDEX, SLAB_SIZE_OF_INDEX;
    slab: slab, u64, OFFSET_OF_SLAB, SLAB_SIZE_OF_SLAB;
    original_index: original_index, i32, OFFSET_OF_ORIGINAL_INDEX, SLAB_SIZE_OF_ORIGINAL_INDEX;
    hash: hash, u8, OFFSET_OF_HASH, SLAB_SIZE_OF_HASH;
    slab_size: slab_size, u64, OFFSET_OF_SLAB_SIZE, SLAB_SIZE_OF_SLAB_SIZE;
    u0: u0, u32, OFFSET_OF___0, SLAB_SIZE_OF___0;
    u1: u1, i64, OFFSET_OF___1, SLAB_SIZE_OF___1;
    ty: ty, f32, OFFSET_OF_TYPE, SLAB_SIZE_OF_TYPE;
    size_: size_, u16, OFFSET_OF___SIZE, SLAB_SIZE_OF___SIZE;
    self_: self_, bool, OFFSET_OF_SELF_, SLAB_SIZE_OF_SELF_;
});
