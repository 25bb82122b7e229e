"""Which obligations make up each property: (checker, pattern of entry points)."""


S = "^slabs::s_"          # all slab containers
CREATE = r"^alloc::(values|arrays)::(new_value|new_array|hybrid_new|gpu_new)$"
GPU, CPU = "^alloc::wgpu_runtime::", "^alloc::cpu_runtime::"
PROPS = {
    "C01": dict(dump="core", tasks=[("round_trip", r"^codecs::.*::both$")]),
    "C02": dict(dump="core", tasks=[("write_footprint", r"^codecs::.*::write$"), ("read_footprint", r"^codecs::.*::read$")]),
    "C03": dict(dump="core", tasks=[
        ("round_trip", r"^derived::\w+::d_.*::both$"), ("write_footprint", r"^derived::\w+::d_.*::write$"), ("read_footprint", r"^derived::\w+::d_.*::read$"),
        ("derived_size", r"^derived::\w+::d_.*::size$"), ("derived_enum", r"^derived::.*defaults::d_")]),
    "C04": dict(dump="core", compile_fail=["core"], tasks=[
        ("field_through", r"^derived::\w+::o_.*::through$"), ("field_consts", r"^derived::\w+::o_.*::size$"), ("any_offset", r"^derived::\w+::o_any")]),
    "C05": dict(dump="core", tasks=[
        ("slab_read", S + ".*::read$"), ("slab_contains", S + ".*::contains$"), ("slab_read_vec", S + ".*::read_vec$"),
        ("slab_read_into", S + ".*::read_into_if_some$"), ("core_client", r"^slabs::c_\w+::write_(read|other)$")]),
    "C06": dict(dump="core", tasks=[
        ("slab_read", S + ".*::read$"), ("slab_contains", S + ".*::contains$"), ("slab_read_vec", S + ".*::read_vec$"),
        ("slab_read_into", S + ".*::read_into_if_some$"), ("slab_read_unchecked", S + ".*::read_unchecked$"),
        ("slab_len_ob", S + ".*::len$"), ("slab_is_empty", S + ".*::is_empty$"),
        ("slab_write", S + ".*::(write|write_indexed)$"), ("slab_write_slice", S + ".*::write_indexed_slice$"),
        ("slab_refuses", S + ".*::picky_"), ("cpu_wrap", r"^slabs::cpu::"),
        ("slab_write_array", S + ".*::write_array$"),
        ("g_capacity", r"^slabs::g_.*::capacity$"), ("g_reserve", r"^slabs::g_.*::reserve_capacity$"), ("g_increment", r"^slabs::g_.*::increment_len$"),
        ("g_expand", r"^slabs::g_.*::maybe_expand_to_fit$"), ("g_allocate", r"^slabs::g_.*::(allocate|append)(_array)?$")]),
    "C07": dict(dump="core", tasks=[("slab_write_array", S + ".*::write_array$"), ("core_client", r"^slabs::c_\w+::write_(array_read|array_read_vec|slice_read)$")]),
    "C08": dict(dump="core", tasks=[
        ("g_capacity", r"^slabs::g_.*::capacity$"), ("g_reserve", r"^slabs::g_.*::reserve_capacity$"),
        ("g_increment", r"^slabs::g_.*::increment_len$"), ("g_expand", r"^slabs::g_.*::maybe_expand_to_fit$"),
        ("g_allocate", r"^slabs::g_.*::(allocate|append)(_array)?$"), ("core_client", r"^slabs::cg_\w+::")]),
    "C09": dict(dump="core", tasks=[("pointer", r"^pointers::(?!u32_cmp|u32_hash|array_iter$)")]),
    "C10": dict(dump="spirv", tasks=[
        ("helper", r"^helpers::"), ("helper", r"^helpers::", "core"), ("agree", r"^codecs::.*::(read|write|size)$"), ("agree", r"^slabs::s_slice::"),
        ("agree", r"^pointers::"), ("agree", r"^derived::.*::(read|write|size|through)$|^derived::.*defaults::d_")]),
    "A04": dict(dump="alloc", tasks=[
        ("gpu_set", r"^alloc::values::gpu_set$"), ("hybrid_set", r"^alloc::values::hybrid_set$"), ("hybrid_modify", r"^alloc::values::hybrid_modify$"),
        ("guard_write", r"^alloc::values::guard_(write|new)$"), ("guard_write_read", r"^alloc::values::guard_write_read$"),
        ("guard_write_twice", r"^alloc::values::guard_write_twice$"), ("guard_with", r"^alloc::values::guard_with$"),
        ("guard_unused", r"^alloc::values::guard_(unused|read)$"), ("cpu_get", r"^alloc::values::(hybrid_get|guard_read)$"),
        ("create_value", r"^alloc::values::(new_value|hybrid_new|gpu_new)$"), ("create_array", r"^alloc::arrays::(new_array|hybrid_new|gpu_new)$"),
        ("array_set", r"^alloc::arrays::(hybrid|gpu)_set_item$"), ("array_modify", r"^alloc::arrays::hybrid_modify$"),
        ("client_value", r"^alloc::steps::(new_get|set_get|set_set_get|guard_get)$"),
        ("client_queue", r"^alloc::steps::(array_)?(set|dropped|upgraded|gpu)_queued$")]),
    "A11": dict(dump="alloc", tasks=[
        ("ident_clone", r"^alloc::(any|values|arrays|buffers)::(\w+_)?clone$"),
        ("ident_parts", r"^alloc::(values|arrays)::(weak_from|weak_upgrade|weak_gpu_from|weak_gpu_upgrade|hybrid_into_gpu_only)$"),
        ("client_value", r"^alloc::steps::(weak_get|gpu_only)$"),
        ("ident_id", r"^alloc::values::\w+_id$"), ("ident_k", r"^alloc::\w+::\w+notifier_index$"),
        ("ident_array", r"^alloc::arrays::(hybrid|gpu)_array$"), ("ident_as_ref", r"^alloc::values::hybrid_as_ref$"),
        ("ident_count", r"^alloc::(values|arrays)::\w*(ref_count|strong_count|external_references)$")]),
    "A02": dict(dump="alloc", tasks=[
        ("free_remove", r"^alloc::ranges::m_remove$"), ("free_add", r"^alloc::ranges::m_add$"), ("range_touch", r"^alloc::ranges::should_merge$"),
        ("range_union", r"^alloc::ranges::union$"), ("range_intersects", r"^alloc::ranges::intersects$"), ("update_intersects", r"^alloc::ranges::u_(intersects|should_merge)$"),
        ("range_from_array", r"^alloc::ranges::from_"), ("update_add", r"^alloc::ranges::u_add$"), ("default_set", r"^alloc::ranges::._default$"),
        ("update_union", r"^alloc::ranges::u_union$")]),
    "A07": dict(dump="alloc", tasks=[
        ("update_add", r"^alloc::ranges::u_add$"), ("update_union", r"^alloc::ranges::u_union$"), ("update_intersects", r"^alloc::ranges::u_(intersects|should_merge)$"),
        ("together", r"^alloc::values::(hybrid_set|hybrid_modify|guard_(write|new|with|write_twice|write_read))$"), ("together", r"^alloc::arrays::hybrid_(set_item|modify)$"),
        ("delivery_order", r"^alloc::any::commit$"),
        ("gpu_set@queues", r"^alloc::values::gpu_set$"), ("array_set@queues", r"^alloc::arrays::(hybrid|gpu)_set_item$"), ("array_modify@queues", r"^alloc::arrays::hybrid_modify$")]),
    "A01": dict(dump="alloc", tasks=[
        ("region_of", r"^alloc::(values|arrays)::(new_value|new_array|hybrid_new|gpu_new)$"),
        ("others_keep_len", r"^alloc::any::(commit|defrag|get_updated_source_ids|get_buffer|has_queued_updates)$"),
        ("fresh_allocator", r"^alloc::(any|cpu)::new(_with_label)?$"),
        ("client_apart", r"^alloc::steps::(two_|\w+_then_)"),
        ("free_remove", r"^alloc::ranges::m_remove$"), ("free_add", r"^alloc::ranges::m_add$"), ("range_union", r"^alloc::ranges::union$"), ("range_from_array", r"^alloc::ranges::from_")]),
    "A03": dict(dump="alloc", tasks=[
        ("recycling", r"^alloc::(any|cpu)::(commit|defrag)$"), ("defrag_complete", r"^alloc::(any|cpu)::(commit|defrag)$"),
        ("registered_slots", CREATE), ("registered_as", CREATE), ("dropped", r"^alloc::(values|arrays)::(hybrid|gpu)_drop$"),
        ("keeps", r"^alloc::(values|arrays)::hybrid_into_gpu_only$"),
        ("free_add", r"^alloc::ranges::m_add$"), ("range_union", r"^alloc::ranges::union$"), ("range_from_array", r"^alloc::ranges::from_")]),
    "A06": dict(dump="alloc", tasks=[
        ("client_queue", r"^alloc::steps::(dropped|gpu|array_dropped|array_gpu)_queued$"),
        ("delivery", r"^alloc::any::commit$"), ("notifications", r"^alloc::any::(commit|get_updated_source_ids)$"),
        ("registered_as", CREATE), ("has_queued", r"^alloc::any::has_queued_updates$"),
        ("update_add", r"^alloc::ranges::u_add$"), ("update_union", r"^alloc::ranges::u_union$")]),
    "A08": dict(dump="alloc", tasks=[
        ("register", CREATE), ("registered_as", CREATE), ("key_queue", r"^alloc::any::commit$"), ("one_at_a_time", r"^alloc::any::commit$"),
        ("gpu_set@notifies", r"^alloc::values::gpu_set$"), ("hybrid_set@notifies", r"^alloc::values::hybrid_set$"), ("hybrid_modify@notifies", r"^alloc::values::hybrid_modify$"),
        ("guard_write@notifies", r"^alloc::values::guard_(write|new)$"), ("guard_with@notifies", r"^alloc::values::guard_with$"),
        ("array_set@notifies", r"^alloc::arrays::(hybrid|gpu)_set_item$"), ("array_modify@notifies", r"^alloc::arrays::hybrid_modify$"),
        ("delivery@takes", r"^alloc::any::commit$")]),
    "A09": dict(dump="alloc", tasks=[
        ("commit_grows", r"^alloc::any::commit$"), ("grow_atomically", CREATE), ("always_fits", CREATE),
        ("fresh_allocator", r"^alloc::(any|cpu)::new(_with_label)?$"), ("client_room", r"^alloc::steps::(fresh|value|array)_commit$"),
        ("cpu_create", CPU + "create$"), ("cpu_copy", CPU + "copy$"), ("gpu_create", GPU + "create$"), ("gpu_copy", GPU + "copy$")]),
    "A10": dict(dump="alloc", tasks=[
        ("buf_invalid", r"^alloc::buffers::is_invalid$"), ("buf_valid", r"^alloc::buffers::is_valid$"), ("buf_new", r"^alloc::buffers::is_new_"),
        ("buf_parts", r"^alloc::buffers::(deref|creation_time)$"), ("buf_sync", r"^alloc::buffers::(synchronize|update_if_invalid)$"),
        ("invalidates", r"^alloc::any::commit$"), ("buf_current", r"^alloc::any::get_buffer$"),
        ("client_buffers", r"^alloc::steps::(fresh_commit_twice|clone_commits|commit_get|first_is_new|second_is_not_new|kept_is_old|grown|synchronized)$"),
        ("others_keep_buffer", r"^alloc::any::(defrag|get_buffer|get_updated_source_ids|has_queued_updates)$"), ("others_keep_buffer", CREATE)]),
    "A12": dict(dump="alloc", tasks=[
        ("self_lock", r"^alloc::(any|cpu|values|arrays|buffers|cpu_runtime|wgpu_runtime)::"), ("lock_order", r"^alloc::any::commit$"),
        ("waiting", GPU + "(buffer_read|read|read_array)$")]),
    "A13": dict(dump="alloc", tasks=[("gpu_errors", GPU + "(buffer_read|read|read_array)$"), ("gpu_transfer", GPU + "(buffer_read|read|read_array)$"), ("missing_buffer", GPU + "(read|read_array)$"),
        ("cpu_read", CPU + "read$")]),
    "A14": dict(dump="alloc", tasks=[
        ("gpu_create", GPU + "create$"), ("gpu_copy", GPU + "copy$"), ("gpu_write", GPU + "write$"), ("gpu_transfer", GPU + "(buffer_read|read|read_array)$")]),
    "A15": dict(dump="alloc", tasks=[
        ("cpu_create", CPU + "create$"), ("cpu_copy", CPU + "copy$"), ("cpu_write", CPU + "write$"), ("cpu_read", CPU + "read$"), ("cpu_view", CPU + "as_vec$")]),
    "A16": dict(dump="alloc", tasks=[("cpu_read", CPU + "read$"), ("gpu_range", GPU + "(buffer_read|read)$")]),
    "A05": dict(dump="alloc", tasks=[
        ("array_set", r"^alloc::arrays::(hybrid|gpu)_set_item$"), ("array_modify", r"^alloc::arrays::hybrid_modify$"), ("element_id", r"^alloc::arrays::\w+_get_id$"),
        ("cpu_get", r"^alloc::arrays::hybrid_(get|get_vec)$"), ("create_array", r"^alloc::arrays::(new_array|hybrid_new|gpu_new)$"),
        ("client_array", r"^alloc::steps::array_(get|get_vec|set_get|set_other|ids)$"),
        ("client_queue", r"^alloc::steps::array_\w+_queued$")]),
    "A17": dict(dump="alloc", compile_pass=["alloc"], compile_fail=["alloc"], api=["alloc"]),
    "A18": dict(dump="alloc", tasks=[
        ("slab_len_ob", S + ".*::len$", "core"), ("slab_is_empty", S + ".*::is_empty$", "core"), ("pointer", r"^pointers::array_(len|is_empty)$", "core"),
        ("counted", r"^alloc::(ranges|arrays)::(\w+_)?(len|is_empty)$"), ("default_set", r"^alloc::ranges::._default$")]),
}

AI = "abstract interpretation of the resolved MIR"
BASE = " Trusts rustc's MIR, the analyser in vx/ and its models of the standard library; an obligation it cannot decide is reported as undecided in the evidence and raises no alarm."
NOTES = {
    "C01": (AI + ": writer summary composed with reader summary", "Holds for all values and positions of every built-in codec and a representative set of compositions, element type and lengths symbolic." + BASE),
    "C02": (AI + ": slot footprints in an affine domain", "Every slab access of every codec is shown to lie in the declared range, for all positions and slab lengths." + BASE),
    "C03": (AI + ": summaries of derived impls over a family of witness types", "Holds for all values of the derived witness types (structs, tuples, units, enums, generic, odd field names); other shapes are covered as far as the derive treats them alike." + BASE),
    "C04": (AI + ": offset constants against writer footprints", "Every offset of the witness types addresses exactly the slots its field's codec writes." + BASE),
    "C05": (AI + ": reads of symbolic ids from slabs of symbolic length", "All ids, lengths and element sizes; the element type is an uninterpreted SlabItem." + BASE),
    "C06": (AI + ": every container against one specification", "Each container's operations are proved against the same specification, hence alike." + BASE),
    "C07": (AI + ": loop summaries of array writes", "All arrays and sequences, with the write footprint shown inside the array." + BASE),
    "C08": (AI + ": growable slab operations against their specification", "All lengths, capacities and item sizes below 2^31 slots." + BASE),
    "C09": (AI + ": pointer arithmetic in an affine domain", "All ids, arrays and indices; overflow handled exactly." + BASE),
    "C10": (AI + " of two configurations, compared path by path", "The library and the entry points are compiled as for a shader (target_arch = spirv, with a stand-in for spirv-std whose unchecked index is given its documented meaning) and as for the CPU; wherever the CPU build returns, the shader build returns the same results, leaves the same slots and accesses nothing out of range. The shader's 32-bit usize is not modelled." + BASE),
    "A04": (AI + ": histories of lock, queue and channel operations", "Every path of every way to set or change a value, with shared state allowed to change whenever no lock protects it." + BASE),
    "A11": (AI + ": the parts of handles as symbolic values", "Every conversion, clone and accessor of every handle type." + BASE),
    "A02": (AI + ": free ranges with symbolic bounds", "Every arrangement in memory of up to three tracked ranges with any bounds; larger sets are covered as far as the loops treat their members alike." + BASE),
    "A05": (AI + ": histories of element updates", "All arrays that fit the address space, every index and value." + BASE),
    "A07": (AI + ": updates with symbolic slots and elements", "Every arrangement of up to two tracked updates of any extent (three in the thorough tier) and any new one; and, over histories, CPU copy and queue change under one lock." + BASE),
    "A01": (AI + ": histories of allocations", "Every path of every way to allocate, with the allocator's state changing at will wherever no lock protects it; the free list is the set A02 shows it to be." + BASE),
    "A03": (AI + ": histories of commits and drops", "Every path of a commit, whatever was notified and whichever handles remain, and every drop." + BASE),
    "A06": (AI + ": histories of commits", "Every path of a commit, for any number of notified values and updates per value; what the set of updates does with overlapping ones is A07." + BASE),
    "A08": (AI + ": lock sections and the order of operations", "Every path of commits and creations under every interleaving the locks allow." + BASE),
    "A09": (AI + ": histories of growth, with memory orders", "Every path of commits and allocations; capacity arithmetic for all lengths and item sizes below 2^31 slots." + BASE),
    "A10": (AI + ": histories of commits and of buffer handles", "Every path of commits, queries and synchronisation, with any number of commits by other threads in between wherever no lock excludes them." + BASE),
    "A12": (AI + ": locks held along every path, and the order between them", "All entry points of the allocator, its handles and its runtimes; locks of the same class on different values or buffers are not ordered against each other." + BASE),
    "A13": (AI + ": futures and GPU calls as events", "Every path of the read-back operations, for every kind of range, whatever the GPU reports; assumes that the device calls the mapping callback once it is waited for." + BASE),
    "A14": (AI + ": offsets, sizes and usages of GPU calls as terms", "All slot counts and ranges; updates of any extent and number. What the GPU does with the calls is out of scope (A19)." + BASE),
    "A15": (AI + ": buffer contents as symbolic sequences", "All capacities, contents and ranges, and any number of updates (their effects on overlapping slots compared for up to two, three in the thorough tier)." + BASE),
    "A16": (AI + ": every combination of bounds", "All nine combinations of bounds with symbolic limits, through both runtimes." + BASE),
    "A17": ("compile-pass and compile-fail witnesses; queries over the types of the public interface", "Thread-safety of every handle type for all stored types; rejection of programs that reach the CPU copy, its lock or the update queues, let a reference escape, or store a type without a format; every exported function and field is searched for mutable access to a CPU copy. Trusts rustc's type checker; functions that change a copy without handing out a reference are A04."),
    "A18": (AI + ": lengths and emptiness queries as terms", "All slabs, arrays, ranges, sets and allocated arrays." + BASE),
}
NA = {
    "A19": "Depends on the behaviour of a GPU, its driver and its queue at run time, none of which is in the source; what the source decides about transfers is A14.",
    "A20": "A bound over infinite allocation histories depends on fragmentation, a run-time quantity no static argument in reach bounds (and first-fit reuse without splitting limits does not bound it in general).",
}
