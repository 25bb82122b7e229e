// error[E0521]|error[E0597]|error[E0716]|error property=A17 kind=alloc a reference to the CPU copy kept after modify
use craballoc::prelude::*;
use crabslab::*;
pub fn f<'a>(h: &'a Hybrid<u32>, out: &mut Option<&'a mut u32>) { h.modify(|v| { *out = Some(v); }); }
