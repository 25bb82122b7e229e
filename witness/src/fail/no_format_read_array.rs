// error[E0277]|error[E0599] property=A17 kind=alloc a read of an array without a storage format
use craballoc::prelude::*;
use crabslab::*;
pub fn f(a: &SlabAllocator<WgpuRuntime>, x: Array<String>) { let _ = a.read_array(x); }
