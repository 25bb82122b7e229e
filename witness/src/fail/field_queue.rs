// error[E0616]|error[E0609]|error[E0610]|error[E0615] property=A17 kind=alloc the queued updates of a value taken from outside
use craballoc::prelude::*;
use crabslab::*;
pub fn f(h: Gpu<u32>) { h.update.lock().unwrap().clear(); }
