// error[E0277]|error[E0599] property=A17 kind=alloc a value of a type bound to one thread
use craballoc::prelude::*;
use crabslab::*;
#[derive(Clone, Default)] pub struct L(std::rc::Rc<u32>);
impl SlabItem for L { const SLAB_SIZE: usize = 1; fn read_slab(_: usize, _: &[u32]) -> Self { L::default() } fn write_slab(&self, i: usize, _: &mut [u32]) -> usize { i + 1 } }
pub fn f(a: &SlabAllocator<CpuRuntime>) { a.new_value(L::default()); }
