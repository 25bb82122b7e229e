// error[E0277]|error property=A17 kind=alloc a read can be awaited on another thread
use craballoc::prelude::*;
pub fn is<X: Send>(_: X) {}
pub fn f(a: &SlabAllocator<WgpuRuntime>) { is(a.read(1..4)) }
pub fn g<T: crabslab::SlabItem + Default + Send + Sync>(a: &SlabAllocator<WgpuRuntime>, x: crabslab::Array<T>) { is(a.read_array(x)) }
