// error[E0521]|error[E0597]|error[E0716]|error property=A17 kind=alloc a reference to an item of the CPU copy kept after modify
use craballoc::prelude::*;
use crabslab::*;
pub fn f<'a>(h: &'a HybridArray<u32>, out: &mut Option<&'a mut u32>) { h.modify(0, |v| { *out = Some(v); }); }
