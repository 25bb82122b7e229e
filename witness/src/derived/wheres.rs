//! Bounds, where clauses and const parameters.
use super::*;
#[derive(Clone, Default, SlabItem)]
#[offsets]
pub struct Generic2<A, B: Clone> where A: Clone { pub a: A, pub b: B, pub c: Option<A> }
#[derive(Clone, SlabItem)]
#[offsets]
pub struct ConstGeneric<const N: usize> where [u64; N]: Default { pub n: u32, pub a: [u64; N], pub last: i16 }
codec!(d_generic2, [A: SlabItem + Clone + Default, B: SlabItem + Clone], [A, B], Generic2<A, B>);
codec!(d_const_generic, [const N: usize], [N], ConstGeneric<N>, [[u64; N]: Default]);
fields!(o_generic2, [A: SlabItem + Clone + Default, B: SlabItem + Clone], Generic2<A, B>, {
    a: a, A, OFFSET_OF_A, SLAB_SIZE_OF_A;
    b: b, B, OFFSET_OF_B, SLAB_SIZE_OF_B;
    c: c, Option<A>, OFFSET_OF_C, SLAB_SIZE_OF_C;
});
pub mod o_const_generic {
    use super::*;
    field!(n, [const N: usize], ConstGeneric<N>, n, u32, OFFSET_OF_N, SLAB_SIZE_OF_N, [[u64; N]: Default]);
    field!(a, [const N: usize], ConstGeneric<N>, a, [u64; N], OFFSET_OF_A, SLAB_SIZE_OF_A, [[u64; N]: Default]);
    field!(last, [const N: usize], ConstGeneric<N>, last, i16, OFFSET_OF_LAST, SLAB_SIZE_OF_LAST, [[u64; N]: Default]);
}
