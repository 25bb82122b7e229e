// error[E0277] property=A17 kind=alloc an allocator is shared between threads
use craballoc::prelude::*;
pub fn is<X: Send + Sync>() {}
pub fn f<R: IsRuntime + Send + Sync>() where R::Buffer: Send + Sync, R::BufferUsages: Send + Sync { is::<SlabAllocator<R>>() }
