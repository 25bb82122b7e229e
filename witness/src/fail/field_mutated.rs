// error[E0616]|error[E0609]|error[E0610]|error[E0615] property=A17 kind=alloc the mark of a write guard cleared from outside
use craballoc::prelude::*;
use crabslab::*;
pub fn f(h: Hybrid<u32>) { let mut g = h.lock(); *g = 1; g.mutated = false; }
