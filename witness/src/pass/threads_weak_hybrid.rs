// error[E0277] property=A17 kind=alloc a weak hybrid value is shared between threads
use craballoc::prelude::*;
pub trait Bounds: crabslab::SlabItem + Clone + Send + Sync + 'static {}
pub fn is<X: Send + Sync>() {}
pub fn f<T: Bounds>() { is::<WeakHybrid<T>>() }
