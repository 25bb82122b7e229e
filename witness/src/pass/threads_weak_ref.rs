// error[E0277] property=A17 kind=alloc updates and the weak references to them are shared between threads
use craballoc::prelude::*;
pub fn is<X: Send + Sync>() {}
pub fn f() { is::<WeakGpuRef>(); is::<SlabUpdate>() }
