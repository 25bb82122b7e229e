// error[E0277] property=A17 kind=alloc a weak handle of a type bound to one thread shared with another
use craballoc::prelude::*;
use crabslab::*;
pub fn is<X: Sync + Send>() {}
pub fn f() { is::<WeakHybrid<std::cell::Cell<u32>>>() }
