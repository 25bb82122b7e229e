//! The same in enums.
use super::*;
#[derive(Clone, Default, SlabItem)]
pub enum EnumNames { #[default] Zero, A { index: u32, slab: u64, hash: i32 }, B { original_index: u64, slab_size: u32, __hash: u8 }, C { r#type: u32, __0: u64, __1: u32, __size: i16 }, D(u32, u32, u32) }
codec!(d_enum_names, [], [], EnumNames);
pub mod defaults {
    use super::*;
    codec_default!(d_enum_names, [], EnumNames);
}
