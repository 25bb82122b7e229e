// error[E0308]|error[E0277] property=C04 the offset of a field of another type added to an id
use crate::derived::basic::*;
use crabslab::*;
pub fn f(id: Id<Mixed>) -> Id<u32> { id + One::OFFSET_OF_A }
