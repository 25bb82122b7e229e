//! Programs that must compile, one per file. The first line of each names the error that counts as a violation.
macro_rules! passes {
    ($($cfg:ident $m:ident,)*) => { $(#[cfg(any(pass_all, $cfg))] mod $m;)* };
}
#[cfg(feature = "alloc")]
passes! {
    pass_threads_hybrid threads_hybrid,
    pass_threads_weak_hybrid threads_weak_hybrid,
    pass_threads_gpu threads_gpu,
    pass_threads_weak_gpu threads_weak_gpu,
    pass_threads_hybrid_array threads_hybrid_array,
    pass_threads_gpu_array threads_gpu_array,
    pass_threads_allocator threads_allocator,
    pass_threads_wgpu threads_wgpu,
    pass_threads_buffer threads_buffer,
    pass_threads_weak_ref threads_weak_ref,
    pass_threads_read threads_read,
    pass_static_handles static_handles,
}
