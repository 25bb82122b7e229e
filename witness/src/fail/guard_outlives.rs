// error[E0515]|error[E0597]|error[E0505] property=A17 kind=alloc a write guard kept after its value
use craballoc::prelude::*;
use crabslab::*;
pub fn f(h: Hybrid<u32>) -> HybridWriteGuard<'static, u32> { h.lock() }
