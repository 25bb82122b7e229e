// error[E0308]|error[E0277] property=C04 the offset of a field of another instance of a generic type
use crate::derived::basic::*;
use crabslab::*;
pub fn f(id: Id<Generic<u64>>) -> Id<u32> { id + Generic::<u32>::OFFSET_OF_N }
