// error[E0277] property=A17 kind=alloc an array handle of a type bound to one thread given to another
use craballoc::prelude::*;
use crabslab::*;
pub fn is<X: Send>() {}
pub fn f() { is::<HybridArray<std::rc::Rc<u32>>>() }
