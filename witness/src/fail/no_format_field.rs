// error[E0277]|error[E0599] property=A17 kind=alloc a derived type with a field without a storage format
use craballoc::prelude::*;
use crabslab::*;
#[derive(Clone, Default, SlabItem)] pub struct L { pub a: u32, pub b: String }
