// error[E0308]|error[E0271]|error[E0277] property=C04 the offset of a field used as an id of another type
use crate::derived::basic::*;
use crabslab::*;
pub fn f(id: Id<Mixed>) -> Id<u32> { Mixed::OFFSET_OF_B + id }
