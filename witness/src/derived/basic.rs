//! Ordinary shapes.
use super::*;
#[derive(Clone, Copy, Default, SlabItem)]
#[offsets]
pub struct One { pub a: u32 }
#[derive(Clone, Default, SlabItem)]
#[offsets]
pub struct Mixed { pub a: u8, pub b: i64, pub c: Option<u32>, pub d: [u16; 3], pub e: (bool, f64), pub f: Id<u64>, pub g: Array<u64>, pub h: PhantomData<u8>, pub i: One }
#[derive(Clone, Default, SlabItem)]
#[offsets]
pub struct Tuple(pub u64, pub i8, pub One, pub Option<u128>);
#[derive(Clone, Default, SlabItem)]
#[offsets]
pub struct Generic<T> { pub first: T, pub id: Id<T>, pub second: T, pub n: u32 }
#[derive(Clone, Default, SlabItem)]
pub struct GenericTuple<A, B>(pub A, pub B, pub A);
#[derive(Clone, Default, SlabItem)]
#[offsets]
pub struct Nested { pub m: Mixed, pub g: Generic<u64>, pub t: Tuple, pub e: Shapes }
#[derive(Clone, Default, SlabItem)]
#[offsets]
pub struct Many { pub a0: u32, pub a1: u64, pub a2: u32, pub a3: u64, pub a4: u32, pub a5: u64, pub a6: u32, pub a7: u64, pub a8: u32, pub a9: u64, pub a10: u32, pub a11: u64, pub a12: u32, pub a13: u64, pub a14: u32 }
#[derive(Clone, Default, SlabItem)]
pub enum OnlyUnit { #[default] A, B, C }
#[derive(Clone, Default, SlabItem)]
pub enum OnlyOne { #[default] A }
#[derive(Clone, Default, SlabItem)]
pub enum Shapes { #[default] Empty, Named { a: u32, b: u64, c: Option<u32> }, Unnamed(u64, i8), Single(One), NoFields {}, NoElements(), Large { x: [u64; 3], y: u32 }, Last(bool) }
#[derive(Clone, Default, SlabItem)]
pub enum Descending { Big(u128, u64), Middle(u64), #[default] Small }
#[derive(Clone, Default, SlabItem)]
pub enum GenericEnum<A, B> { #[default] Nothing, First(A), Second { b: B, n: u32 }, Both(B, A), Id(Id<A>) }
#[derive(Clone, Default, SlabItem)]
#[repr(u8)]
pub enum Discriminants { X(u32) = 7, #[default] Y = 3, Z { z: u64 } = 200 }
#[derive(Clone, Default, SlabItem)]
pub enum ManyVariants { #[default] V0, V1(u32), V2(u64), V3(u32), V4, V5 { a: u32 }, V6(u8), V7(i8), V8(bool), V9(f32), V10(f64), V11(u16), V12 }
#[derive(Clone, Default, SlabItem)]
pub enum NestedEnum { #[default] None, Inner(Shapes), Other { o: OnlyUnit, d: Descending }, S(Mixed) }
codec!(d_one, [], [], One);
codec!(d_mixed, [], [], Mixed);
codec!(d_tuple, [], [], Tuple);
codec!(d_generic, [T: SlabItem], [T], Generic<T>);
codec!(d_generic_tuple, [A: SlabItem, B: SlabItem], [A, B], GenericTuple<A, B>);
codec!(d_nested, [], [], Nested);
codec!(d_many, [], [], Many);
codec!(d_only_unit, [], [], OnlyUnit);
codec!(d_only_one, [], [], OnlyOne);
codec!(d_shapes, [], [], Shapes);
codec!(d_descending, [], [], Descending);
codec!(d_generic_enum, [A: SlabItem, B: SlabItem], [A, B], GenericEnum<A, B>);
codec!(d_discriminants, [], [], Discriminants);
codec!(d_many_variants, [], [], ManyVariants);
codec!(d_nested_enum, [], [], NestedEnum);
codec!(d_array_of_struct, [], [], [One; 2]);
codec!(d_option_of_enum, [], [], Option<Shapes>);
pub mod defaults {
    use super::*;
    codec_default!(d_only_unit, [], OnlyUnit);
    codec_default!(d_only_one, [], OnlyOne);
    codec_default!(d_shapes, [], Shapes);
    codec_default!(d_descending, [], Descending);
    codec_default!(d_generic_enum, [A: SlabItem, B: SlabItem], GenericEnum<A, B>);
    codec_default!(d_discriminants, [], Discriminants);
    codec_default!(d_many_variants, [], ManyVariants);
    codec_default!(d_nested_enum, [], NestedEnum);
}
fields!(o_one, [], One, { a: a, u32, OFFSET_OF_A, SLAB_SIZE_OF_A; });
fields!(o_mixed, [], Mixed, {
    a: a, u8, OFFSET_OF_A, SLAB_SIZE_OF_A;
    b: b, i64, OFFSET_OF_B, SLAB_SIZE_OF_B;
    c: c, Option<u32>, OFFSET_OF_C, SLAB_SIZE_OF_C;
    d: d, [u16; 3], OFFSET_OF_D, SLAB_SIZE_OF_D;
    e: e, (bool, f64), OFFSET_OF_E, SLAB_SIZE_OF_E;
    f: f, Id<u64>, OFFSET_OF_F, SLAB_SIZE_OF_F;
    g: g, Array<u64>, OFFSET_OF_G, SLAB_SIZE_OF_G;
    h: h, PhantomData<u8>, OFFSET_OF_H, SLAB_SIZE_OF_H;
    i: i, One, OFFSET_OF_I, SLAB_SIZE_OF_I;
});
fields!(o_tuple, [], Tuple, {
    f0: f0, u64, OFFSET_OF_0, SLAB_SIZE_OF_0;
    f1: f1, i8, OFFSET_OF_1, SLAB_SIZE_OF_1;
    f2: f2, One, OFFSET_OF_2, SLAB_SIZE_OF_2;
    f3: f3, Option<u128>, OFFSET_OF_3, SLAB_SIZE_OF_3;
});
fields!(o_generic, [T: SlabItem], Generic<T>, {
    first: first, T, OFFSET_OF_FIRST, SLAB_SIZE_OF_FIRST;
    id: id, Id<T>, OFFSET_OF_ID, SLAB_SIZE_OF_ID;
    second: second, T, OFFSET_OF_SECOND, SLAB_SIZE_OF_SECOND;
    n: n, u32, OFFSET_OF_N, SLAB_SIZE_OF_N;
});
fields!(o_nested, [], Nested, {
    m: m, Mixed, OFFSET_OF_M, SLAB_SIZE_OF_M;
    g: g, Generic<u64>, OFFSET_OF_G, SLAB_SIZE_OF_G;
    t: t, Tuple, OFFSET_OF_T, SLAB_SIZE_OF_T;
    e: e, Shapes, OFFSET_OF_E, SLAB_SIZE_OF_E;
});
fields!(o_many, [], Many, {
    a0: a0, u32, OFFSET_OF_A0, SLAB_SIZE_OF_A0;
    a7: a7, u64, OFFSET_OF_A7, SLAB_SIZE_OF_A7;
    a8: a8, u32, OFFSET_OF_A8, SLAB_SIZE_OF_A8;
    a14: a14, u32, OFFSET_OF_A14, SLAB_SIZE_OF_A14;
});
/// Arithmetic of offsets in general.
pub mod o_any {
    use super::*;
    use crabslab::offset::Offset;
    pub fn id_plus_offset<F, T>(id: Id<T>, n: usize) -> Id<F> { id + Offset::<F, T>::new(n) }
    pub fn offset_plus_id<F, T>(id: Id<T>, n: usize) -> Id<F> { Offset::<F, T>::new(n) + id }
    pub fn offset_as_id<F, T>(n: usize) -> Id<F> { Id::from(Offset::<F, T>::new(n)) }
}
