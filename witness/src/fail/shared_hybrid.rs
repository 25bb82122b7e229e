// error[E0277] property=A17 kind=alloc a handle of a type bound to one thread shared with another
use craballoc::prelude::*;
use crabslab::*;
pub fn is<X: Sync>() {}
pub fn f() { is::<Hybrid<std::cell::Cell<u32>>>() }
