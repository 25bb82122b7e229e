// error[E0277]|error[E0599] property=A17 kind=alloc a GPU value without a storage format
use craballoc::prelude::*;
use crabslab::*;
pub fn f(a: &SlabAllocator<CpuRuntime>) { let _ = Gpu::new(a, String::new()); }
