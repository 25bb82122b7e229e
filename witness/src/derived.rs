//! Deriving types, one file per kind of shape. A kind that does not compile is left out of the
//! analysis (`--cfg skip_<file>`) and reported.
use crate::{codec, codec_default};
use core::marker::PhantomData;
use crabslab::*;
/// The id of a field, by its offset; which slots hold the field; its size constant.
macro_rules! field {
    ($name:ident, [$($g:tt)*], $t:ty, $f:ident, $ft:ty, $off:ident, $size:ident $(, [$($w:tt)*])?) => {
        pub mod $name {
            use super::*;
            pub fn id_plus_offset<$($g)*>(id: Id<$t>) -> Id<$ft> $(where $($w)*)? { id + <$t>::$off }
            pub fn offset_plus_id<$($g)*>(id: Id<$t>) -> Id<$ft> $(where $($w)*)? { <$t>::$off + id }
            pub fn offset_as_id<$($g)*>() -> Id<$ft> $(where $($w)*)? { Id::from(<$t>::$off) }
            pub fn size<$($g)*>() -> usize $(where $($w)*)? { <$t>::$size }
            pub fn field_size<$($g)*>() -> usize $(where $($w)*)? { <$ft as SlabItem>::SLAB_SIZE }
            /// Writes the parent and reads the field through its offset.
            pub fn through<$($g)*>(t: &$t, index: usize, slab: &mut [u32]) -> $ft $(where $($w)*)? {
                SlabItem::write_slab(t, index, slab);
                let id: Id<$ft> = Id::<$t>::from(index) + <$t>::$off;
                SlabItem::read_slab(id.index(), slab)
            }
        }
    };
}
macro_rules! fields {
    ($m:ident, $g:tt, $t:ty, { $($n:ident: $f:ident, $ft:ty, $off:ident, $size:ident;)* }) => {
        pub mod $m { use super::*; $(field!($n, $g, $t, $f, $ft, $off, $size);)* }
    };
}

macro_rules! kinds {
    ($($cfg:ident $m:ident,)*) => { $(#[cfg(not($cfg))] pub mod $m;)* };
}
kinds! {
    skip_basic basic,
    skip_unit unit,
    skip_wheres wheres,
    skip_names names,
    skip_enum_names enum_names,
    skip_wide wide,
}
