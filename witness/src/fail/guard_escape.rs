// error[E0505]|error[E0515]|error[E0716]|error[E0597] property=A17 kind=alloc a reference to the CPU copy kept after its write guard
use craballoc::prelude::*;
use crabslab::*;
pub fn f(h: &Hybrid<u32>) -> u32 { let mut g = h.lock(); let r: &mut u32 = &mut *g; drop(g); *r = 1; *r }
