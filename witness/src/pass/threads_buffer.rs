// error[E0277] property=A17 kind=alloc a buffer is shared between threads
use craballoc::prelude::*;
pub fn is<X: Send + Sync>() {}
pub fn f<B: Send + Sync>() { is::<SlabBuffer<B>>() }
