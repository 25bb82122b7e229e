//! Programs that must not compile, one per file. The first line of each names the error expected.
macro_rules! fails {
    ($($cfg:ident $m:ident,)*) => { $(#[cfg(any(fail_all, $cfg))] mod $m;)* };
}
fails! {
    fail_offset_field_type offset_field_type,
    fail_offset_field_type_left offset_field_type_left,
    fail_offset_foreign offset_foreign,
    fail_offset_foreign_left offset_foreign_left,
    fail_offset_generic offset_generic,
}
#[cfg(feature = "alloc")]
fails! {
    fail_field_array_queue field_array_queue,
    fail_field_guard field_guard,
    fail_field_hybrid field_hybrid,
    fail_field_hybrid_array field_hybrid_array,
    fail_field_mutated field_mutated,
    fail_field_queue field_queue,
    fail_field_weak field_weak,
    fail_guard_escape guard_escape,
    fail_guard_outlives guard_outlives,
    fail_modify_escape modify_escape,
    fail_modify_item_escape modify_item_escape,
    fail_modify_return modify_return,
    fail_no_format_array no_format_array,
    fail_no_format_field no_format_field,
    fail_no_format_gpu no_format_gpu,
    fail_no_format_gpu_array no_format_gpu_array,
    fail_no_format_read_array no_format_read_array,
    fail_no_format_slab no_format_slab,
    fail_no_format_value no_format_value,
    fail_not_send_array not_send_array,
    fail_not_send_value not_send_value,
    fail_sent_hybrid sent_hybrid,
    fail_sent_hybrid_array sent_hybrid_array,
    fail_shared_buffer shared_buffer,
    fail_shared_hybrid shared_hybrid,
    fail_shared_weak shared_weak,
}
