//! Attributes, visibility, default parameters, qualified paths and combinations.
use super::*;
/// Documented.
#[derive(Clone, Default, SlabItem)]
#[offsets]
#[repr(C)]
pub struct Attributes {
    /// A field.
    #[doc(hidden)]
    pub a: ::core::primitive::u64,
    #[allow(dead_code)]
    pub(crate) b: core::option::Option<crabslab::Id<Attributes>>,
    pub c: [[u16; 2]; 2],
}
#[derive(Clone, Default, SlabItem)]
#[offsets]
pub struct Defaults<T: Clone = u32, U: 'static = u8> { pub t: T, pub u: U, pub v: Option<T> }
#[derive(Clone, SlabItem)]
pub struct Both<T: Clone, const N: usize>(pub u32, pub [T; N], pub Id<T>);
#[derive(Clone, Default, SlabItem)]
pub enum WhereEnum<A> where A: Clone { #[default] Zero, One(A), Two { a: A, b: Option<A> } }
#[derive(Clone, SlabItem)]
pub enum ConstEnum<const N: usize> { Zero, Some([u32; N]), Two(u64, [u16; N]) }
impl<const N: usize> Default for ConstEnum<N> { fn default() -> Self { ConstEnum::Zero } }
#[derive(Clone, Default, SlabItem)]
pub struct Recursive { pub next: Id<Recursive>, pub value: u64 }
#[derive(Clone, Default, SlabItem)]
pub enum Tree { #[default] Leaf, Node { left: Id<Tree>, right: Id<Tree>, value: i64 } }
#[derive(Clone, Default, SlabItem)]
pub struct Tuples(pub (u32, (u64, bool)), pub [(u32, Option<u64>); 2]);
#[derive(Clone, Default, SlabItem)]
pub enum DefaultLast { A(u64), B { x: u8 }, #[default] C }
codec!(d_attributes, [], [], Attributes);
codec!(d_defaults, [T: SlabItem + Clone + Default, U: SlabItem], [T, U], Defaults<T, U>);
codec!(d_both, [T: SlabItem + Copy + Default, const N: usize], [T, N], Both<T, N>, [[T; N]: Default]);
codec!(d_where_enum, [A: SlabItem + Clone + Default], [A], WhereEnum<A>);
codec!(d_const_enum, [const N: usize], [N], ConstEnum<N>, [[u32; N]: Default, [u16; N]: Default]);
codec!(d_recursive, [], [], Recursive);
codec!(d_tree, [], [], Tree);
codec!(d_tuples, [], [], Tuples);
codec!(d_default_last, [], [], DefaultLast);
pub mod defaults {
    use super::*;
    codec_default!(d_where_enum, [A: SlabItem + Clone + Default], WhereEnum<A>);
    codec_default!(d_const_enum, [const N: usize], ConstEnum<N>);
    codec_default!(d_tree, [], Tree);
    codec_default!(d_default_last, [], DefaultLast);
}
fields!(o_attributes, [], Attributes, {
    a: a, u64, OFFSET_OF_A, SLAB_SIZE_OF_A;
    b: b, Option<Id<Attributes>>, OFFSET_OF_B, SLAB_SIZE_OF_B;
    c: c, [[u16; 2]; 2], OFFSET_OF_C, SLAB_SIZE_OF_C;
});
fields!(o_defaults, [T: SlabItem + Clone + Default, U: SlabItem], Defaults<T, U>, {
    t: t, T, OFFSET_OF_T, SLAB_SIZE_OF_T;
    u: u, U, OFFSET_OF_U, SLAB_SIZE_OF_U;
    v: v, Option<T>, OFFSET_OF_V, SLAB_SIZE_OF_V;
});
