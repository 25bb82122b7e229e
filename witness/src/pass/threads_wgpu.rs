// error[E0277] property=A17 kind=alloc the allocators of both runtimes are shared between threads
use craballoc::prelude::*;
pub fn is<X: Send + Sync>() {}
pub fn f() { is::<SlabAllocator<WgpuRuntime>>(); is::<SlabAllocator<CpuRuntime>>(); is::<VecSlab>() }
