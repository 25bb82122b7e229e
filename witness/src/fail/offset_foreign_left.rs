// error[E0308]|error[E0277] property=C04 an id added to the offset of a field of another type
use crate::derived::basic::*;
use crabslab::*;
pub fn f(id: Id<Mixed>) -> Id<u32> { One::OFFSET_OF_A + id }
