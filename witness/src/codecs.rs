//! Storage of the built-in types.
use crabslab::*;
use core::marker::PhantomData;
#[macro_export]
macro_rules! codec {
    ($name:ident, [$($g:tt)*], [$($u:tt)*], $t:ty $(, [$($w:tt)*])?) => {
        pub mod $name {
            use super::*;
            pub fn write<$($g)*>(t: &$t, index: usize, slab: &mut [u32]) -> usize $(where $($w)*)? { SlabItem::write_slab(t, index, slab) }
            pub fn read<$($g)*>(index: usize, slab: &[u32]) -> $t $(where $($w)*)? { <$t as SlabItem>::read_slab(index, slab) }
            pub fn size<$($g)*>() -> usize $(where $($w)*)? { <$t as SlabItem>::SLAB_SIZE }
            pub fn both<$($g)*>(t: &$t, index: usize, slab: &mut [u32]) -> (usize, $t) $(where $($w)*)? {
                (write::<$($u)*>(t, index, slab), read::<$($u)*>(index, slab))
            }
        }
    };
}
/// The default value of types that have a tag.
#[macro_export]
macro_rules! codec_default {
    ($name:ident, [$($g:tt)*], $t:ty) => {
        pub fn $name<$($g)*>() -> $t { <$t as Default>::default() }
    };
}
codec!(c_u8, [], [], u8);
codec!(c_i8, [], [], i8);
codec!(c_u16, [], [], u16);
codec!(c_i16, [], [], i16);
codec!(c_u32, [], [], u32);
codec!(c_i32, [], [], i32);
codec!(c_u64, [], [], u64);
codec!(c_i64, [], [], i64);
codec!(c_u128, [], [], u128);
codec!(c_i128, [], [], i128);
codec!(c_f32, [], [], f32);
codec!(c_f64, [], [], f64);
codec!(c_bool, [], [], bool);
codec!(c_option, [T: SlabItem + Default], [T], Option<T>);
codec!(c_option_u64, [], [], Option<u64>);
codec!(c_option_unit, [T: core::any::Any], [T], Option<PhantomData<T>>);
codec!(c_array, [T: SlabItem + Copy + Default, const N: usize], [T, N], [T; N], [[T; N]: Default]);
codec!(c_array3_i16, [], [], [i16; 3]);
codec!(c_array2_opt, [T: SlabItem + Copy + Default], [T], [Option<T>; 2]);
codec!(c_id, [T: core::any::Any], [T], Id<T>);
codec!(c_slab_array, [T: SlabItem], [T], Array<T>);
codec!(c_phantom, [T: core::any::Any], [T], PhantomData<T>);
codec!(c_tuple1, [A: SlabItem], [A], (A,));
codec!(c_tuple2, [A: SlabItem, B: SlabItem], [A, B], (A, B));
codec!(c_tuple3, [A: SlabItem, B: SlabItem, C: SlabItem], [A, B, C], (A, B, C));
codec!(c_tuple4, [A: SlabItem, B: SlabItem, C: SlabItem, D: SlabItem], [A, B, C, D], (A, B, C, D));
codec!(c_tuple5, [A: SlabItem, B: SlabItem, C: SlabItem, D: SlabItem, E: SlabItem], [A, B, C, D, E], (A, B, C, D, E));
codec!(c_tuple6, [A: SlabItem, B: SlabItem, C: SlabItem, D: SlabItem, E: SlabItem, F: SlabItem], [A, B, C, D, E, F], (A, B, C, D, E, F));
codec!(c_tuple7, [A: SlabItem, B: SlabItem, C: SlabItem, D: SlabItem, E: SlabItem, F: SlabItem, G: SlabItem], [A, B, C, D, E, F, G], (A, B, C, D, E, F, G));
codec!(c_tuple8, [A: SlabItem, B: SlabItem, C: SlabItem, D: SlabItem, E: SlabItem, F: SlabItem, G: SlabItem, H: SlabItem], [A, B, C, D, E, F, G, H], (A, B, C, D, E, F, G, H));
codec!(c_tuple9, [A: SlabItem, B: SlabItem, C: SlabItem, D: SlabItem, E: SlabItem, F: SlabItem, G: SlabItem, H: SlabItem, I: SlabItem], [A, B, C, D, E, F, G, H, I], (A, B, C, D, E, F, G, H, I));
codec!(c_tuple10, [A: SlabItem, B: SlabItem, C: SlabItem, D: SlabItem, E: SlabItem, F: SlabItem, G: SlabItem, H: SlabItem, I: SlabItem, J: SlabItem], [A, B, C, D, E, F, G, H, I, J], (A, B, C, D, E, F, G, H, I, J));
codec!(c_tuple11, [A: SlabItem, B: SlabItem, C: SlabItem, D: SlabItem, E: SlabItem, F: SlabItem, G: SlabItem, H: SlabItem, I: SlabItem, J: SlabItem, K: SlabItem], [A, B, C, D, E, F, G, H, I, J, K], (A, B, C, D, E, F, G, H, I, J, K));
codec!(c_tuple12, [A: SlabItem, B: SlabItem, C: SlabItem, D: SlabItem, E: SlabItem, F: SlabItem, G: SlabItem, H: SlabItem, I: SlabItem, J: SlabItem, K: SlabItem, L: SlabItem], [A, B, C, D, E, F, G, H, I, J, K, L], (A, B, C, D, E, F, G, H, I, J, K, L));
/// Thirteen elements: no `Default` for such tuples.
pub mod c_tuple13 {
    use super::*;
    type T13<A, B, C, D, E, F, G, H, I, J, K, L, M> = (A, B, C, D, E, F, G, H, I, J, K, L, M);
    pub fn write<A: SlabItem, B: SlabItem, C: SlabItem, D: SlabItem, E: SlabItem, F: SlabItem, G: SlabItem, H: SlabItem, I: SlabItem, J: SlabItem, K: SlabItem, L: SlabItem, M: SlabItem>(t: &T13<A, B, C, D, E, F, G, H, I, J, K, L, M>, index: usize, slab: &mut [u32]) -> usize { SlabItem::write_slab(t, index, slab) }
    pub fn read<A: SlabItem, B: SlabItem, C: SlabItem, D: SlabItem, E: SlabItem, F: SlabItem, G: SlabItem, H: SlabItem, I: SlabItem, J: SlabItem, K: SlabItem, L: SlabItem, M: SlabItem>(index: usize, slab: &[u32]) -> T13<A, B, C, D, E, F, G, H, I, J, K, L, M> { SlabItem::read_slab(index, slab) }
    pub fn size<A: SlabItem, B: SlabItem, C: SlabItem, D: SlabItem, E: SlabItem, F: SlabItem, G: SlabItem, H: SlabItem, I: SlabItem, J: SlabItem, K: SlabItem, L: SlabItem, M: SlabItem>() -> usize { <T13<A, B, C, D, E, F, G, H, I, J, K, L, M> as SlabItem>::SLAB_SIZE }
    pub fn both<A: SlabItem, B: SlabItem, C: SlabItem, D: SlabItem, E: SlabItem, F: SlabItem, G: SlabItem, H: SlabItem, I: SlabItem, J: SlabItem, K: SlabItem, L: SlabItem, M: SlabItem>(t: &T13<A, B, C, D, E, F, G, H, I, J, K, L, M>, index: usize, slab: &mut [u32]) -> (usize, T13<A, B, C, D, E, F, G, H, I, J, K, L, M>) { (write(t, index, slab), read(index, slab)) }
}
#[cfg(not(target_arch = "spirv"))]
mod g {
    use super::*;
    codec!(c_vec2, [], [], glam::Vec2);
    codec!(c_vec3, [], [], glam::Vec3);
    codec!(c_vec4, [], [], glam::Vec4);
    codec!(c_quat, [], [], glam::Quat);
    codec!(c_mat4, [], [], glam::Mat4);
    codec!(c_uvec2, [], [], glam::UVec2);
    codec!(c_uvec3, [], [], glam::UVec3);
    codec!(c_uvec4, [], [], glam::UVec4);
}
#[cfg(not(target_arch = "spirv"))]
pub use g::*;
