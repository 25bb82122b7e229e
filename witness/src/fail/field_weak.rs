// error[E0616]|error[E0609]|error[E0610]|error[E0615] property=A17 kind=alloc the CPU copy of a hybrid value taken from a weak reference
use craballoc::prelude::*;
use crabslab::*;
pub fn f(h: WeakHybrid<u32>) { *h.weak_cpu.upgrade().unwrap().write().unwrap() = 1; }
