// error[E0277]|error[E0599] property=A17 kind=alloc a value without a storage format
use craballoc::prelude::*;
use crabslab::*;
pub fn f(a: &SlabAllocator<CpuRuntime>) { a.new_value(String::new()); }
