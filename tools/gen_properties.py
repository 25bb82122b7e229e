#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the file is regenerated identically)."""
import json, os
P = []
CR, CA, CD = "crates/crabslab/src/", "crates/craballoc/src/", "crates/crabslab-derive/src/lib.rs"
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "state": [dict(name=a, meaning=b, where=c) for a, b, c in state],
                          "mechanism": [dict(name=a, where=b) for a, b in mech],
                          "observe_at": list(observe), "hook_needed": hook}})

IMPLS = [CR+"impl_slab_item/mod.rs", CR+"impl_slab_item/primitives.rs", CR+"impl_slab_item/tuples.rs",
         CR+"impl_slab_item/glam.rs", CR+"id.rs", CR+"array.rs", CD]
p("C01", "A stored value reads back identical",
  "For every built-in storable type (integers, floats, bool, options, fixed arrays, tuples, ids, slab arrays, phantom data, glam vectors, matrices and quaternions), reading the type at the position where one of its values was written yields that same value, bit for bit. This holds for every value of the type and every position at which it fits.",
  ["inputs", "programs"], "all values of all built-in storable types, all positions",
  "The tests write a handful of constants; sign extension, high words, NaN payloads, the third lane of a matrix or the twelfth tuple element are never sampled.",
  IMPLS, [("read/write pair of each storable type", CR+"impl_slab_item/")], observe=["SlabItem::write_slab followed by SlabItem::read_slab"])
p("C02", "A value touches exactly its declared slots",
  "Writing a value of a built-in storable type at position p changes no slot outside the SLAB_SIZE slots starting at p and returns p + SLAB_SIZE (or, refusing to write, changes nothing and returns p). Reading at p looks at no slot outside that same range.",
  ["inputs", "programs"], "all built-in storable types, all values, all positions",
  "The tests look at the value, not at the neighbouring slots or the returned position, and use a few types.",
  IMPLS, [("SLAB_SIZE constant and the index arithmetic of each storable type", CR+"impl_slab_item/")],
  observe=["slots changed by write_slab", "return value of write_slab", "slots read by read_slab"])
p("C03", "Derived types keep the storage guarantees",
  "A struct, tuple struct, unit struct or enum (generic or not, whatever its field names) that derives storage support round-trips every value, touches only its own SLAB_SIZE slots and returns the position just after them. Its SLAB_SIZE is the sum of its fields, or for an enum one tag slot plus its largest variant; every variant has its own tag, and an unknown tag reads as the default value.",
  ["programs", "inputs"], "all deriving types built from storable fields, all values",
  "Tests derive three or four small types; the macro has a separate code path per shape (named, unnamed, unit, generic, enum variant kind).",
  [CD], [("code generation for structs, enums and tuples", CD)], observe=["generated SlabItem impls of a witness crate"])
p("C04", "Derived field offsets address their field",
  "For a type deriving field offsets, adding a field's offset to the id of the parent gives the id of exactly the slots where that field is stored, typed as that field, and the field's size constant is that field's SLAB_SIZE. Adding the offset of a field of some other type does not compile.",
  ["programs"], "all deriving structs, all fields",
  "One doc test adds the offset of the first field (0) of a two-field struct.",
  [CD, CR+"offset.rs"], [("OFFSET_OF_* and SLAB_SIZE_OF_* constants", CD), ("Id + Offset", CR+"offset.rs")], observe=["OFFSET_OF_* constants", "Id + Offset"])
p("C05", "Checked reads never leave the slab",
  "Reading any id, including the none id, from a slab of any length returns the stored value if all of the value's slots lie inside the slab and the type's default otherwise, without panicking or overflowing; the containment query answers exactly that question. Reading an array as a vector yields one such checked read per element, in order; reading through a none id into a destination leaves the destination unchanged, and through any other id overwrites it.",
  ["inputs"], "all ids, slab lengths and storable types",
  "The tests check a few ids on a three-slot slab.",
  [CR+"slab.rs"], [("contains / read / read_vec / read_into_if_some", CR+"slab.rs")], observe=["Slab::contains", "Slab::read", "Slab::read_vec", "Slab::read_into_if_some"])
p("C06", "All slab containers behave alike",
  "A plain slice, a vector and the CPU wrapper give the same result for every slab operation: the same slots are read and written for the same id, position and value, and the same next position and length come back. Writing a sequence stores its items consecutively in order and returns the position after the last one.",
  ["inputs", "programs"], "all operations, values and positions on all provided slab containers",
  "Tests exercise each container with one or two types and never compare them with one another.",
  [CR+"slab.rs"], [("Slab impls for slices, vectors and the CPU wrapper", CR+"slab.rs")], observe=["Slab methods of each container"])
p("C07", "Array writes stay inside the array",
  "Writing a sequence through a slab array changes only slots that belong to that array, however long the sequence is, and stores the sequence's leading items in order. If the sequence is shorter than the array nothing is written.",
  ["inputs"], "all arrays and sequences of any length",
  "Tests only write sequences of exactly the array's length.",
  [CR+"slab.rs"], [("write_array", CR+"slab.rs")], observe=["Slab::write_array"])
p("C08", "Growing a slab never overlaps or loses data",
  "Each allocation or append on a growable slab returns a region that starts at the previous end, extends the length by exactly the size of the allocated items and leaves earlier contents alone; an appended value is stored at the returned id. Enough capacity for the new length is reserved first, and after reserving a capacity the slab really has at least that capacity. Allocating zero items returns the null array and changes nothing.",
  ["inputs", "histories"], "all sequences of allocations and appends, all sizes",
  "Tests perform a few appends on an empty vector; none looks at capacity.",
  [CR+"slab.rs"], [("maybe_expand_to_fit / allocate / allocate_array / append / append_array / reserve_capacity / increment_len", CR+"slab.rs")],
  observe=["GrowableSlab methods"])
p("C09", "Ids and slab arrays are consistent pointers",
  "Element i of a slab array is the id at start + i * SLAB_SIZE when i is less than its length and the none id otherwise; iteration yields exactly these ids in order; the raw view and the sub-slab of an array cover exactly its elements' slots; the union of two raw arrays covers exactly both; a raw array contains exactly the positions of its slots. Ids compare, hash and convert by their raw value; the default id and array are the none id and the null array, which have no elements; adding to an id moves it by that many slots.",
  ["inputs"], "all ids, arrays, element types and indices",
  "Tests evaluate at() for two indices and nothing else.",
  [CR+"array.rs", CR+"id.rs", CR+"offset.rs"], [("Array::at / iter / into_u32_array / sub_slab / union", CR+"array.rs"), ("Id comparisons and arithmetic", CR+"id.rs")],
  observe=["Array and Id public methods"])
p("C10", "CPU and GPU builds of the shared code agree",
  "The shader build of the slab code uses, for every in-range access and size computation, the same slots and the same values as the CPU build. The shader-only variants of shared helpers denote the same element or number as their CPU counterparts.",
  ["configurations", "inputs"], "the CPU and spirv configurations, all in-range indices",
  "No test and no build here ever compiles the spirv configuration.",
  [CR+"lib.rs", CR+"slab.rs"], [("cfg(target_arch = \"spirv\") variants", CR+"lib.rs")], observe=["slice_index*, array_index*, __saturating_sub and everything built on them"])

SL, RT, RG, VL, WG = CA+"slab.rs", CA+"runtime.rs", CA+"range.rs", CA+"value.rs", CA+"slab/wgpu_slab.rs"
p("A01", "Regions of live values never overlap",
  "Every region the allocator hands out has exactly the size of the requested items and is either carved out of the free list, which no longer contains it afterwards, or the next unused stretch at the end of the slab, which no later allocation can receive. This holds for every order of allocations and drops and when several threads allocate at the same time; allocating zero items yields the null array.",
  ["histories", "schedules"], "all sequences and interleavings of allocations and drops, all sizes",
  "One test allocates and frees a few single-slot values on one thread.",
  [SL, RG], [("allocate / allocate_array", SL), ("atomic bump of the length", SL), ("recycle list", RG)],
  state=[("len", "end of the used part of the slab", SL), ("recycles", "free ranges", SL)], observe=["ids and arrays of new values"])
p("A02", "Free-range bookkeeping is exact",
  "Taking n slots from a set of free ranges returns a range of exactly n slots that was tracked, and exactly those slots stop being tracked; nothing is taken or changed when n is zero or no range is large enough. Adding a range merges it only with ranges that touch (free ranges) or overlap (updates) it, the merged range covers exactly its parts, and no mergeable pair is left behind.",
  ["inputs", "histories"], "all sequences of additions and removals",
  "One test removes single slots and adds back three ranges.",
  [RG], [("RangeManager::add_range / remove", RG), ("should_merge_with / union / intersects / len", RG)],
  state=[("ranges", "tracked ranges", RG)], observe=["RangeManager"])
p("A03", "Memory is recycled only after the last handle is gone",
  "A value's slots become available again only in a commit that finds no remaining handle to the value, exactly once, and exactly that value's slots. Dropping any handle notifies the allocator after the handle has given up its share of the value, so that the commit that follows the last drop finds it dead on every schedule.",
  ["histories", "schedules"], "all orders and interleavings of clones, drops and commits",
  "Tests drop four values on one thread between commits.",
  [SL, VL], [("strong count test while draining", SL), ("drop notifications of handles", VL)],
  state=[("update_sources", "weak references to all live values", SL), ("recycles", "free ranges", SL)], observe=["ids of values created after drops"])
p("A04", "Every change is queued for the GPU",
  "Creating a value or array, setting or modifying it, and dropping a write guard through which it was accessed mutably all leave an update queued that holds the complete encoding of the new value addressed to exactly the value's own slots, and notify the allocator of that value after the update is in place. A write guard that was only read from queues nothing, and the CPU copy always holds the value that was queued.",
  ["histories", "inputs"], "all operations on all handle types, all values",
  "Tests mutate one u32 through one guard.",
  [VL, SL], [("set / modify / guard drop / constructors", VL)], state=[("update", "queued updates of a value", VL)],
  observe=["buffer contents after commit", "has_queued_updates"])
p("A05", "Array element updates address that element",
  "Setting or modifying element i of an allocated array changes the CPU copy of element i and queues, after any earlier queued updates, an update for exactly that element's slots holding that element's encoding. An index out of range and an empty array queue no write at all. Reading element i and asking for its id refer to that same element, and an index out of range yields nothing.",
  ["inputs"], "all arrays, indices and values",
  "No test sets an array element.",
  [VL], [("set_item / modify of arrays", VL)], observe=["buffer contents after commit"])
p("A06", "Commit delivers everything queued",
  "A commit takes the queued updates of every value that was notified and is still alive, and writes each of them to the buffer it returns before returning; it leaves the queue empty and writes nothing else. Updates that were queued are reported as queued until a commit takes them.",
  ["histories"], "all histories of changes and commits",
  "Tests commit a single one-slot value.",
  [SL, RT, VL], [("commit / drain / get_update / has_queued_updates", SL)],
  state=[("update_queue", "ids of values with queued updates", SL), ("notifier", "channel of value ids", SL)], observe=["buffer contents after commit", "has_queued_updates", "get_updated_source_ids"])
p("A07", "The newest write wins",
  "When several queued updates cover the same slot, the slot ends up with the value of the update that was queued last, and every slot covered by only one update gets that update's value. The CPU copy and the queued update of a value change together under the value's lock, so that concurrent modifications cannot be queued in a different order than they were applied.",
  ["histories", "schedules"], "all sequences and interleavings of updates of a value",
  "No test queues two updates of the same slots, let alone partly overlapping ones or from two threads.",
  [RG, VL, SL], [("merging of updates", RG), ("lock scope of modify and guard drop", VL)], observe=["buffer contents after commit"])
p("A08", "Concurrent commits lose no update",
  "A change or creation made by one thread while another thread commits is written either by that commit or by the next one: a value is known to the allocator before its notification can be consumed, queued notifications are read and cleared in one atomic step, and commits do not run concurrently with one another.",
  ["schedules"], "all interleavings of creations, changes, queries and commits on any number of threads",
  "Every test is single-threaded.",
  [SL, VL], [("order of registration and notification", SL), ("critical sections of the drain", SL)],
  state=[("update_queue", "ids of values with queued updates", SL), ("update_sources", "registered values", SL)], observe=["buffer contents after two commits"])
p("A09", "The buffer always fits and growth preserves data",
  "Whenever a commit writes updates, the buffer it writes to has room for every region they address, on every schedule. Capacity never shrinks; when the buffer is replaced the new one has the allocator's current capacity and starts with the complete contents of the old one, and the first commit creates a buffer.",
  ["histories", "schedules"], "all sequences and interleavings of allocations and commits",
  "Tests grow a slab to four slots on one thread and never read back data written before a growth.",
  [SL, RT], [("maybe_expand_to_fit / reserve_capacity / recreate_buffer / commit order", SL)],
  state=[("capacity", "slots the next buffer will have", SL), ("needs_expansion", "buffer must be recreated", SL)], observe=["buffer contents after commit"])
p("A10", "Stale buffers are recognised and replaced",
  "A buffer handle reports itself invalid exactly when its allocator has replaced the buffer since the handle was created, and new exactly when it was created by the latest commit. Synchronising an invalid handle makes it the allocator's current buffer and reports true; synchronising a valid one changes nothing and reports false; no schedule lets a handle see the invalidation before the replacement is available.",
  ["histories", "schedules"], "all histories of commits and queries on all handles and clones",
  "Tests query two handles after one growth and never synchronise one.",
  [SL], [("creation and invalidation counters", SL), ("update_if_invalid", SL)],
  state=[("invalidation_k", "commit that last replaced the buffer", SL), ("invocation_k", "number of commits", SL)], observe=["SlabBuffer methods"])
p("A11", "All handles to a value share one identity",
  "Cloning a handle, downgrading it, upgrading a weak handle and keeping only its GPU half all yield a handle with the same id, the same notifier identity, the same CPU copy and the same update queue as the original; clones of an allocator or buffer handle share all of its state. Upgrading fails exactly when a part the handle needs has been dropped. The number of references a handle reports is that of the handles which keep the value's slots in use, and a weak handle reports that there are none exactly when none is left.",
  ["histories"], "all chains of conversions between handle types",
  "No test clones, downgrades or upgrades a handle.",
  [VL, SL], [("Clone impls, weak and strong conversions", VL)], observe=["id, notifier_index, get, ref_count of converted handles"])
p("A12", "Locks cannot deadlock",
  "No operation of the allocator or its handles acquires a lock it already holds, any two locks that are ever held together are always acquired in the same order, and no lock is held while waiting for the GPU.",
  ["schedules"], "all interleavings of all public operations",
  "Every test is single-threaded.",
  [SL, VL, RT], [("all lock acquisitions", SL)], observe=["progress of every operation"])
p("A13", "Failures surface as errors",
  "Reading before the first commit returns the missing-buffer error; failures of the GPU transfer are returned as errors to the caller and never dropped or turned into a panic. A successful read returns exactly the requested range of the buffer.",
  ["fault_sequences", "inputs"], "all failures of the read path",
  "No test reads from a GPU buffer or provokes an error.",
  [WG, RT, SL], [("error propagation in read / read_array / buffer_read", RT)], observe=["SlabAllocator::read, read_array"])
p("A14", "GPU transfers address bytes correctly",
  "Every GPU transfer addresses the bytes of exactly the slots it is meant for: sizes and offsets are four times the slot counts, buffers are created with room for their capacity and usable as storage and as source and destination of copies in addition to the requested usages, and growing copies the whole old buffer to the start of the new one.",
  ["inputs", "configurations"], "all capacities, updates and ranges of the wgpu runtime",
  "The wgpu runtime is compiled but never run by any test.",
  [RT, WG], [("WgpuRuntime", RT)], observe=["arguments of wgpu calls"])
p("A15", "The CPU runtime is a faithful reference buffer",
  "The CPU runtime creates zeroed buffers of the requested capacity, copies a whole buffer to the start of another without touching the rest, writes each update's elements at exactly its slots in the order given, and reads back exactly the requested range.",
  ["inputs"], "all capacities, updates and ranges",
  "Tests write single slots.",
  [RT], [("CpuRuntime", RT)], observe=["VecSlab contents"])
p("A16", "Read ranges are converted exactly",
  "Any range of slots, with inclusive, exclusive or missing bounds on either side, is converted to the half-open interval it denotes, a missing start meaning the beginning and a missing end the end of the slab, and a length equal to the number of slots in it.",
  ["inputs"], "all kinds of bounds and all values",
  "No test reads a range.",
  [RT], [("range conversion", RT)], observe=["SlabAllocator::read", "CpuRuntime reads"])
p("A17", "Handles are thread-safe and mutation is always tracked",
  "Allocators, buffers and all value handles can be sent to and shared between threads whenever the stored type can. Safe code outside the library can obtain a mutable reference to a value's CPU copy only through the tracked operations, and cannot store a type that has no storage format.",
  ["programs"], "all client programs that compile",
  "Tests cannot show that a program does not compile, nor that a type is thread-safe.",
  [VL, SL], [("visibility of the CPU copies, bounds of the handle types", VL)], observe=["acceptance or rejection of client programs by the compiler"])
p("A18", "Emptiness queries agree with lengths",
  "For slabs, slab arrays, ranges, range sets and allocated arrays, the emptiness query is true exactly when the corresponding length is zero, and the length is the number of slots or elements actually covered.",
  ["inputs"], "all values of all types with a length",
  "No test calls an emptiness query except on the range set.",
  [CR+"slab.rs", CR+"array.rs", RG, VL], [("len / is_empty pairs", RG)], observe=["len and is_empty of each type"])
p("A19", "Committed values are visible to shaders on a real GPU",
  "After a commit with the GPU runtime, a shader or a read-back observes exactly the committed values in the returned buffer.",
  ["histories", "configurations"], "all devices, drivers and queue schedules",
  "No GPU is available to the tests.",
  [RT], [("WgpuRuntime", RT)], observe=["GPU buffer contents"])
p("A20", "Memory use stays bounded under churn",
  "Creating and dropping values of a fixed mix of sizes forever keeps the slab's length within a bound that depends only on the largest set of values alive at once.",
  ["histories"], "all infinite histories of creations, drops and commits",
  "Tests perform one round of reuse.",
  [SL, RG], [("recycling and merging of free ranges", RG)], observe=["capacity of the buffer over time"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P), "properties")
