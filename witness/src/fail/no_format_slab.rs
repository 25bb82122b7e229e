// error[E0277]|error[E0599] property=A17 kind=alloc a slab write of a value without a storage format
use craballoc::prelude::*;
use crabslab::*;
pub fn f(mut s: Vec<u32>, id: Id<String>) { s.write(id, &String::new()); }
