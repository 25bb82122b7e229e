// error[E0616]|error[E0609]|error[E0610]|error[E0615] property=A17 kind=alloc the CPU copy of a hybrid array taken from outside
use craballoc::prelude::*;
use crabslab::*;
pub fn f(h: HybridArray<u32>) { h.cpu_value.write().unwrap()[0] = 1; }
