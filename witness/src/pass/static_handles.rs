// error[E0277]|error[E0310]|error[E0309] property=A17 kind=alloc handles of owned values outlive the allocator
use craballoc::prelude::*;
pub trait Bounds: crabslab::SlabItem + Clone + Send + Sync + 'static {}
pub fn is<X: Send + Sync + 'static>() {}
pub fn f<T: Bounds>() { is::<Hybrid<T>>(); is::<HybridArray<T>>(); is::<Gpu<T>>(); is::<GpuArray<T>>(); is::<SlabAllocator<CpuRuntime>>(); is::<SlabBuffer<T>>() }
