// error[E0521]|error[E0597]|error[E0716]|error property=A17 kind=alloc a reference to the CPU copy returned from modify
use craballoc::prelude::*;
use crabslab::*;
pub fn f<'a>(h: &'a Hybrid<u32>) -> &'a mut u32 { h.modify(|v| v) }
