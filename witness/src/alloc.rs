//! The allocator and its handles.
use craballoc::prelude::*;
use craballoc::range::{IsRange, Range, RangeManager};
use crabslab::*;

pub mod ranges {
    use super::*;
    pub fn len(r: &Range) -> u32 { r.len() }
    pub fn is_empty(r: &Range) -> bool { r.is_empty() }
    pub fn intersects(a: &Range, b: &Range) -> bool { a.intersects(b) }
    pub fn should_merge(a: &Range, b: &Range) -> bool { IsRange::should_merge_with(a, b) }
    pub fn union(a: &mut Range, b: Range) { IsRange::union(a, b) }
    pub fn from_array<T: SlabItem>(a: Array<T>) -> Range { Range::from(a) }
    pub fn from_u32_array(a: Array<u32>) -> Range { Range::from(a) }
    pub fn eq(a: &Range, b: &Range) -> bool { a == b }
    pub fn m_default() -> RangeManager<Range> { Default::default() }
    pub fn m_len(m: &RangeManager<Range>) -> usize { m.len() }
    pub fn m_is_empty(m: &RangeManager<Range>) -> bool { m.is_empty() }
    pub fn m_add(m: &mut RangeManager<Range>, r: Range) { m.add_range(r) }
    pub fn m_remove(m: &mut RangeManager<Range>, count: u32) -> Option<Range> { m.remove(count) }
    pub fn u_intersects(a: &SlabUpdate, b: &SlabUpdate) -> bool { a.intersects(b) }
    pub fn u_should_merge(a: &SlabUpdate, b: &SlabUpdate) -> bool { IsRange::should_merge_with(a, b) }
    pub fn u_union(a: &mut SlabUpdate, b: SlabUpdate) { IsRange::union(a, b) }
    pub fn u_default() -> RangeManager<SlabUpdate> { Default::default() }
    pub fn u_len(m: &RangeManager<SlabUpdate>) -> usize { m.len() }
    pub fn u_is_empty(m: &RangeManager<SlabUpdate>) -> bool { m.is_empty() }
    pub fn u_add(m: &mut RangeManager<SlabUpdate>, r: SlabUpdate) { m.add_range(r) }
}

/// The allocator, over any runtime and over the CPU runtime.
macro_rules! allocator {
    ($m:ident, [$($g:tt)*], $r:ty) => {
        pub mod $m {
            use super::*;
            type A<X> = SlabAllocator<X>;
            pub fn new<$($g)*>(r: &$r, u: <$r as IsRuntime>::BufferUsages) -> A<$r> where $r: AsRef<$r> { A::new(r, u) }
            pub fn new_with_label<$($g)*>(r: &$r, u: <$r as IsRuntime>::BufferUsages, l: Option<&str>) -> A<$r> where $r: AsRef<$r> { A::new_with_label(r, u, l) }
            pub fn clone<$($g)*>(a: &A<$r>) -> A<$r> { a.clone() }
            pub fn get_updated_source_ids<$($g)*>(a: &A<$r>) { a.get_updated_source_ids(); }
            pub fn has_queued_updates<$($g)*>(a: &A<$r>) -> bool { a.has_queued_updates() }
            pub fn commit<$($g)*>(a: &A<$r>) -> SlabBuffer<<$r as IsRuntime>::Buffer> { a.commit() }
            pub fn upkeep<$($g)*>(a: &A<$r>) -> SlabBuffer<<$r as IsRuntime>::Buffer> { a.upkeep() }
            pub fn defrag<$($g)*>(a: &A<$r>) { a.defrag() }
            pub fn get_buffer<$($g)*>(a: &A<$r>) -> Option<SlabBuffer<<$r as IsRuntime>::Buffer>> { a.get_buffer() }
        }
    };
}
allocator!(any, [R: IsRuntime], R);
allocator!(cpu, [], CpuRuntime);

pub trait Item: SlabItem + Clone + Send + Sync + 'static {}
impl<T: SlabItem + Clone + Send + Sync + 'static> Item for T {}

/// Handles to single values.
pub mod values {
    use super::*;
    pub fn new_value<R: IsRuntime, T: Item>(a: &SlabAllocator<R>, value: T) -> Hybrid<T> { a.new_value(value) }
    pub fn hybrid_new<R: IsRuntime, T: Item>(a: &SlabAllocator<R>, value: T) -> Hybrid<T> { Hybrid::new(a, value) }
    pub fn hybrid_clone<T: Item>(h: &Hybrid<T>) -> Hybrid<T> { h.clone() }
    pub fn hybrid_drop<T: Item>(h: Hybrid<T>) { drop(h) }
    pub fn hybrid_ref_count<T: Item>(h: &Hybrid<T>) -> usize { h.ref_count() }
    pub fn hybrid_id<T: Item>(h: &Hybrid<T>) -> Id<T> { h.id() }
    pub fn hybrid_get<T: Item>(h: &Hybrid<T>) -> T { h.get() }
    pub fn hybrid_set<T: Item>(h: &Hybrid<T>, value: T) { h.set(value) }
    pub fn hybrid_modify<T: Item, A: 'static, F: FnOnce(&mut T) -> A>(h: &Hybrid<T>, f: F) -> A { h.modify(f) }
    pub fn hybrid_into_gpu_only<T: Item>(h: Hybrid<T>) -> Gpu<T> { h.into_gpu_only() }
    pub fn hybrid_notifier_index<T: Item>(h: &Hybrid<T>) -> usize { h.notifier_index() }
    pub fn hybrid_as_ref<T: Item>(h: &Hybrid<T>) -> &Hybrid<T> { h.as_ref() }
    pub fn hybrid_debug<T: Item + core::fmt::Debug>(h: &Hybrid<T>, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { core::fmt::Debug::fmt(h, f) }
    /// A guard through which nothing is changed, read only, and written.
    pub fn guard_unused<T: Item>(h: &Hybrid<T>) { let _g = h.lock(); }
    pub fn guard_read<T: Item>(h: &Hybrid<T>) -> T { let g = h.lock(); let t: &T = &g; t.clone() }
    pub fn guard_write<T: Item>(h: &Hybrid<T>, value: T) { let mut g = h.lock(); *g = value; }
    pub fn guard_write_twice<T: Item>(h: &Hybrid<T>, value: T, second: T) { let mut g = h.lock(); *g = value; *g = second; }
    pub fn guard_write_read<T: Item>(h: &Hybrid<T>, value: T) -> T { let mut g = h.lock(); *g = value; let t: &T = &g; t.clone() }
    pub fn guard_with<T: Item, F: FnOnce(&mut T)>(h: &Hybrid<T>, f: F) { let mut g = h.lock(); f(&mut *g) }
    pub fn guard_new<T: Item>(h: &Hybrid<T>, value: T) { let mut g = HybridWriteGuard::new(h); *g = value; }
    pub fn weak_from<T: Item>(h: &Hybrid<T>) -> WeakHybrid<T> { WeakHybrid::from_hybrid(h) }
    pub fn weak_clone<T: Item>(h: &WeakHybrid<T>) -> WeakHybrid<T> { h.clone() }
    pub fn weak_upgrade<T: Item>(h: &WeakHybrid<T>) -> Option<Hybrid<T>> { h.upgrade() }
    pub fn weak_id<T: Item>(h: &WeakHybrid<T>) -> Id<T> { h.id() }
    pub fn weak_strong_count<T: Item>(h: &WeakHybrid<T>) -> usize { h.strong_count() }
    pub fn weak_has_external_references<T: Item>(h: &WeakHybrid<T>) -> bool { h.has_external_references() }
    pub fn weak_weak_gpu<T: Item>(h: &WeakHybrid<T>) -> &WeakGpu<T> { h.weak_gpu() }
    pub fn weak_notifier_index<T: Item>(h: &WeakHybrid<T>) -> usize { h.notifier_index() }
    pub fn weak_drop<T: Item>(h: WeakHybrid<T>) { drop(h) }
    pub fn gpu_new<R: IsRuntime, T: Item>(a: &SlabAllocator<R>, value: T) -> Gpu<T> { Gpu::new(a, value) }
    pub fn gpu_clone<T: Item>(g: &Gpu<T>) -> Gpu<T> { g.clone() }
    pub fn gpu_drop<T: Item>(g: Gpu<T>) { drop(g) }
    pub fn gpu_id<T: Item>(g: &Gpu<T>) -> Id<T> { g.id() }
    pub fn gpu_set<T: Item>(g: &Gpu<T>, value: T) { g.set(value) }
    pub fn gpu_notifier_index<T: Item>(g: &Gpu<T>) -> usize { g.notifier_index() }
    pub fn weak_gpu_from<T: Item>(g: &Gpu<T>) -> WeakGpu<T> { WeakGpu::from_gpu(g) }
    pub fn weak_gpu_clone<T: Item>(g: &WeakGpu<T>) -> WeakGpu<T> { g.clone() }
    pub fn weak_gpu_upgrade<T: Item>(g: &WeakGpu<T>) -> Option<Gpu<T>> { g.upgrade() }
    pub fn weak_gpu_notifier_index<T: Item>(g: &WeakGpu<T>) -> usize { g.notifier_index() }
    pub fn weak_gpu_drop<T: Item>(g: WeakGpu<T>) { drop(g) }
}

/// Handles to arrays.
pub mod arrays {
    use super::*;
    pub fn new_array<R: IsRuntime, T: Item>(a: &SlabAllocator<R>, values: Vec<T>) -> HybridArray<T> { a.new_array(values) }
    pub fn hybrid_new<R: IsRuntime, T: Item>(a: &SlabAllocator<R>, values: Vec<T>) -> HybridArray<T> { HybridArray::new(a, values) }
    pub fn hybrid_clone<T: Item>(h: &HybridArray<T>) -> HybridArray<T> { h.clone() }
    pub fn hybrid_drop<T: Item>(h: HybridArray<T>) { drop(h) }
    pub fn hybrid_ref_count<T: Item>(h: &HybridArray<T>) -> usize { h.ref_count() }
    pub fn hybrid_len<T: Item>(h: &HybridArray<T>) -> usize { h.len() }
    pub fn hybrid_is_empty<T: Item>(h: &HybridArray<T>) -> bool { h.is_empty() }
    pub fn hybrid_array<T: Item>(h: &HybridArray<T>) -> Array<T> { h.array() }
    pub fn hybrid_get<T: Item>(h: &HybridArray<T>, index: usize) -> Option<T> { h.get(index) }
    pub fn hybrid_get_vec<T: Item>(h: &HybridArray<T>) -> Vec<T> { h.get_vec() }
    pub fn hybrid_get_id<T: Item>(h: &HybridArray<T>, index: usize) -> Id<T> { h.get_id(index) }
    pub fn hybrid_modify<T: Item, S, F: FnOnce(&mut T) -> S>(h: &HybridArray<T>, index: usize, f: F) -> Option<S> { h.modify(index, f) }
    pub fn hybrid_set_item<T: Item>(h: &HybridArray<T>, index: usize, value: T) -> Option<T> { h.set_item(index, value) }
    pub fn hybrid_into_gpu_only<T: Item>(h: HybridArray<T>) -> GpuArray<T> { h.into_gpu_only() }
    pub fn hybrid_notifier_index<T: Item>(h: &HybridArray<T>) -> usize { h.notifier_index() }
    pub fn hybrid_debug<T: Item + core::fmt::Debug>(h: &HybridArray<T>, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { core::fmt::Debug::fmt(h, f) }
    pub fn gpu_new<R: IsRuntime, T: Item>(a: &SlabAllocator<R>, values: &[T]) -> GpuArray<T> { GpuArray::new(a, values) }
    pub fn gpu_clone<T: Item>(g: &GpuArray<T>) -> GpuArray<T> { g.clone() }
    pub fn gpu_drop<T: Item>(g: GpuArray<T>) { drop(g) }
    pub fn gpu_len<T: Item>(g: &GpuArray<T>) -> usize { g.len() }
    pub fn gpu_is_empty<T: Item>(g: &GpuArray<T>) -> bool { g.is_empty() }
    pub fn gpu_array<T: Item>(g: &GpuArray<T>) -> Array<T> { g.array() }
    pub fn gpu_get_id<T: Item>(g: &GpuArray<T>, index: usize) -> Id<T> { g.get_id(index) }
    pub fn gpu_set_item<T: Item>(g: &GpuArray<T>, index: usize, value: &T) { g.set_item(index, value) }
    pub fn gpu_notifier_index<T: Item>(g: &GpuArray<T>) -> usize { g.notifier_index() }
}

pub mod buffers {
    use super::*;
    pub fn clone<B>(b: &SlabBuffer<B>) -> SlabBuffer<B> { b.clone() }
    pub fn deref<B>(b: &SlabBuffer<B>) -> &B { b }
    pub fn creation_time<B>(b: &SlabBuffer<B>) -> usize { b.creation_time() }
    pub fn is_invalid<B>(b: &SlabBuffer<B>) -> bool { b.is_invalid() }
    pub fn is_valid<B>(b: &SlabBuffer<B>) -> bool { b.is_valid() }
    pub fn is_new_this_commit<B>(b: &SlabBuffer<B>) -> bool { b.is_new_this_commit() }
    pub fn is_new_this_upkeep<B>(b: &SlabBuffer<B>) -> bool { b.is_new_this_upkeep() }
    pub fn update_if_invalid<B>(b: &mut SlabBuffer<B>) -> bool { b.update_if_invalid() }
    pub fn synchronize<B>(b: &mut SlabBuffer<B>) -> bool { b.synchronize() }
}

use core::future::Future;
use core::ops::{Bound, RangeBounds};
use core::task::{Context, Poll};
/// Runs a future to its end.
fn finish<F: Future>(f: F, cx: &mut Context<'_>) -> F::Output {
    let mut f = core::pin::pin!(f);
    loop {
        if let Poll::Ready(x) = f.as_mut().poll(cx) {
            return x;
        }
    }
}
pub type Bounds = (Bound<usize>, Bound<usize>);
pub mod cpu_runtime {
    use super::*;
    pub fn create(r: &CpuRuntime, capacity: usize, label: Option<&str>) -> VecSlab { r.buffer_create(capacity, label, ()) }
    pub fn copy(r: &CpuRuntime, source: &VecSlab, destination: &VecSlab, label: Option<&str>) { r.buffer_copy(source, destination, label) }
    pub fn write(r: &CpuRuntime, updates: Vec<SlabUpdate>, buffer: &VecSlab) { r.buffer_write(updates.into_iter(), buffer) }
    pub fn read(r: &CpuRuntime, buffer: &VecSlab, len: usize, range: Bounds, cx: &mut Context<'_>) -> Result<Vec<u32>, SlabAllocatorError> { finish(r.buffer_read(buffer, len, range), cx) }
    pub fn as_vec(b: &VecSlab) -> Vec<u32> { b.as_vec().clone() }
}
pub mod wgpu_runtime {
    use super::*;
    pub fn create(r: &WgpuRuntime, capacity: usize, label: Option<&str>, usages: wgpu::BufferUsages) -> wgpu::Buffer { r.buffer_create(capacity, label, usages) }
    pub fn copy(r: &WgpuRuntime, source: &wgpu::Buffer, destination: &wgpu::Buffer, label: Option<&str>) { r.buffer_copy(source, destination, label) }
    pub fn write(r: &WgpuRuntime, updates: Vec<SlabUpdate>, buffer: &wgpu::Buffer) { r.buffer_write(updates.into_iter(), buffer) }
    pub fn buffer_read(r: &WgpuRuntime, buffer: &wgpu::Buffer, len: usize, range: Bounds, cx: &mut Context<'_>) -> Result<Vec<u32>, SlabAllocatorError> { finish(r.buffer_read(buffer, len, range), cx) }
    pub fn read(a: &SlabAllocator<WgpuRuntime>, range: Bounds, cx: &mut Context<'_>) -> Result<Vec<u32>, SlabAllocatorError> { finish(a.read(range), cx) }
    pub fn read_array<T: SlabItem + Default>(a: &SlabAllocator<WgpuRuntime>, array: Array<T>, cx: &mut Context<'_>) -> Result<Vec<T>, SlabAllocatorError> { finish(a.read_array(array), cx) }
}

/// Small clients: several steps one after the other.
pub mod steps {
    use super::*;
    pub fn fresh_commit<R: IsRuntime + AsRef<R>>(r: &R, u: R::BufferUsages) -> SlabBuffer<R::Buffer> { SlabAllocator::new(r, u).commit() }
    pub fn fresh_commit_twice<R: IsRuntime + AsRef<R>>(r: &R, u: R::BufferUsages) -> (SlabBuffer<R::Buffer>, SlabBuffer<R::Buffer>) {
        let a = SlabAllocator::<R>::new(r, u);
        let b = a.commit();
        let c = a.commit();
        (b, c)
    }
    pub fn commit_get<R: IsRuntime + AsRef<R>>(r: &R, u: R::BufferUsages) -> (Option<SlabBuffer<R::Buffer>>, SlabBuffer<R::Buffer>, Option<SlabBuffer<R::Buffer>>) {
        let a = SlabAllocator::<R>::new(r, u);
        let before = a.get_buffer();
        let b = a.commit();
        (before, b, a.get_buffer())
    }
    pub fn first_is_new<R: IsRuntime + AsRef<R>>(r: &R, u: R::BufferUsages) -> (bool, bool, bool) {
        let a = SlabAllocator::<R>::new(r, u);
        let b = a.commit();
        (b.is_new_this_commit(), b.is_valid(), b.is_invalid())
    }
    pub fn second_is_not_new<R: IsRuntime + AsRef<R>>(r: &R, u: R::BufferUsages) -> (bool, bool, bool) {
        let a = SlabAllocator::<R>::new(r, u);
        a.commit();
        let b = a.commit();
        (b.is_new_this_commit(), b.is_valid(), b.is_invalid())
    }
    pub fn kept_is_old<R: IsRuntime + AsRef<R>>(r: &R, u: R::BufferUsages) -> (bool, bool, bool) {
        let a = SlabAllocator::<R>::new(r, u);
        let b = a.commit();
        a.commit();
        (b.is_new_this_commit(), b.is_valid(), b.is_invalid())
    }
    pub fn clone_commits<R: IsRuntime + AsRef<R>>(r: &R, u: R::BufferUsages) -> (SlabBuffer<R::Buffer>, SlabBuffer<R::Buffer>) {
        let a = SlabAllocator::<R>::new(r, u);
        let c = a.clone();
        (a.commit(), c.commit())
    }
    pub fn grown<R: IsRuntime + AsRef<R>>(r: &R, u: R::BufferUsages, x: u32, y: u32) -> (SlabBuffer<R::Buffer>, SlabBuffer<R::Buffer>, (bool, bool), (bool, bool)) {
        let a = SlabAllocator::<R>::new(r, u);
        let b = a.commit();
        let _v = Gpu::new(&a, x);
        let _w = Gpu::new(&a, y);
        let c = a.commit();
        let s = (b.is_invalid(), b.is_new_this_commit());
        let t = (c.is_invalid(), c.is_new_this_commit());
        (b, c, s, t)
    }
    pub fn synchronized<R: IsRuntime + AsRef<R>>(r: &R, u: R::BufferUsages, x: u32, y: u32) -> (SlabBuffer<R::Buffer>, SlabBuffer<R::Buffer>, bool, bool) {
        let a = SlabAllocator::<R>::new(r, u);
        let mut b = a.commit();
        let _v = Gpu::new(&a, x);
        let _w = Gpu::new(&a, y);
        let c = a.commit();
        let s = b.update_if_invalid();
        let t = b.is_valid();
        (b, c, s, t)
    }
    pub fn two_values<R: IsRuntime + AsRef<R>, T: Item, S: Item>(r: &R, u: R::BufferUsages, x: T, y: S) -> (Id<T>, Id<S>) {
        let a = SlabAllocator::<R>::new(r, u);
        let v = Gpu::new(&a, x);
        let w = Gpu::new(&a, y);
        (v.id(), w.id())
    }
    pub fn array_then_value<R: IsRuntime + AsRef<R>, T: Item, S: Item>(r: &R, u: R::BufferUsages, x: &[T], y: S) -> (Array<T>, Id<S>) {
        let a = SlabAllocator::<R>::new(r, u);
        let v = GpuArray::new(&a, x);
        let w = Gpu::new(&a, y);
        (v.array(), w.id())
    }
    pub fn value_then_array<R: IsRuntime + AsRef<R>, T: Item, S: Item>(r: &R, u: R::BufferUsages, x: T, y: &[S]) -> (Id<T>, Array<S>) {
        let a = SlabAllocator::<R>::new(r, u);
        let v = Gpu::new(&a, x);
        let w = GpuArray::new(&a, y);
        (v.id(), w.array())
    }
    pub fn value_commit<R: IsRuntime + AsRef<R>, T: Item>(r: &R, u: R::BufferUsages, x: T) -> (Id<T>, SlabBuffer<R::Buffer>) {
        let a = SlabAllocator::<R>::new(r, u);
        let v = Gpu::new(&a, x);
        (v.id(), a.commit())
    }
    pub fn array_commit<R: IsRuntime + AsRef<R>, T: Item>(r: &R, u: R::BufferUsages, x: Vec<T>) -> (Array<T>, SlabBuffer<R::Buffer>) {
        let a = SlabAllocator::<R>::new(r, u);
        let v = a.new_array(x);
        (v.array(), a.commit())
    }
    pub fn two_arrays<R: IsRuntime + AsRef<R>, T: Item, S: Item>(r: &R, u: R::BufferUsages, x: Vec<T>, y: Vec<S>) -> (Array<T>, Array<S>) {
        let a = SlabAllocator::<R>::new(r, u);
        let v = a.new_array(x);
        let w = a.new_array(y);
        (v.array(), w.array())
    }
    pub fn two_hybrids<R: IsRuntime + AsRef<R>, T: Item, S: Item>(r: &R, u: R::BufferUsages, x: T, y: S) -> (Id<T>, Id<S>) {
        let a = SlabAllocator::<R>::new(r, u);
        let c = a.clone();
        let v = a.new_value(x);
        let w = c.new_value(y);
        (v.id(), w.id())
    }
    pub fn new_get<R: IsRuntime, T: Item>(a: &SlabAllocator<R>, x: T) -> T { a.new_value(x).get() }
    pub fn set_get<R: IsRuntime, T: Item>(a: &SlabAllocator<R>, x: T, y: T) -> T {
        let h = a.new_value(x);
        let c = h.clone();
        h.set(y);
        c.get()
    }
    pub fn set_set_get<R: IsRuntime, T: Item>(a: &SlabAllocator<R>, x: T, z: T, y: T) -> T {
        let h = a.new_value(x);
        let c = h.clone();
        h.set(z);
        c.set(y);
        h.get()
    }
    pub fn guard_get<R: IsRuntime, T: Item>(a: &SlabAllocator<R>, x: T, y: T) -> T {
        let h = a.new_value(x);
        {
            let mut g = h.lock();
            *g = y;
        }
        h.get()
    }
    pub fn weak_get<R: IsRuntime, T: Item>(a: &SlabAllocator<R>, x: T, y: T) -> Option<T> {
        let h = a.new_value(x);
        let w = WeakHybrid::from_hybrid(&h);
        h.set(y);
        w.upgrade().map(|c| c.get())
    }
    pub fn gpu_only<R: IsRuntime, T: Item>(a: &SlabAllocator<R>, x: T) -> (Id<T>, Id<T>) {
        let h = a.new_value(x);
        let i = h.id();
        (i, h.into_gpu_only().id())
    }
    pub fn array_get<R: IsRuntime, T: Item>(a: &SlabAllocator<R>, values: Vec<T>, i: usize) -> Option<T> { a.new_array(values).get(i) }
    pub fn array_get_vec<R: IsRuntime, T: Item>(a: &SlabAllocator<R>, values: Vec<T>) -> Vec<T> { a.new_array(values).get_vec() }
    pub fn array_set_get<R: IsRuntime, T: Item>(a: &SlabAllocator<R>, values: Vec<T>, i: usize, y: T) -> Option<T> {
        let h = a.new_array(values);
        let c = h.clone();
        h.set_item(i, y);
        c.get(i)
    }
    pub fn array_set_other<R: IsRuntime, T: Item>(a: &SlabAllocator<R>, values: Vec<T>, i: usize, j: usize, y: T) -> (bool, Option<T>) {
        let h = a.new_array(values);
        h.set_item(i, y);
        (i == j, h.get(j))
    }
    pub fn set_queued<R: IsRuntime, T: Item>(a: &SlabAllocator<R>, x: T, z: T, y: T) -> Hybrid<T> {
        let h = a.new_value(x);
        h.set(z);
        h.set(y);
        h
    }
    pub fn dropped_queued<R: IsRuntime, T: Item>(a: &SlabAllocator<R>, x: T, y: T) -> Hybrid<T> {
        let h = a.new_value(x);
        let c = h.clone();
        c.set(y);
        drop(c);
        h
    }
    pub fn upgraded_queued<R: IsRuntime, T: Item>(a: &SlabAllocator<R>, x: T, y: T) -> Hybrid<T> {
        let h = a.new_value(x);
        let w = WeakHybrid::from_hybrid(&h);
        h.set(y);
        if let Some(c) = w.upgrade() {
            let _ = c.get();
        }
        drop(w);
        h
    }
    pub fn gpu_queued<R: IsRuntime, T: Item>(a: &SlabAllocator<R>, x: T, y: T) -> Gpu<T> {
        let h = a.new_value(x);
        let g = h.clone().into_gpu_only();
        h.set(y);
        drop(h);
        g
    }
    pub fn array_set_queued<R: IsRuntime, T: Item>(a: &SlabAllocator<R>, values: Vec<T>, i: usize, y: T) -> HybridArray<T> {
        let h = a.new_array(values);
        h.set_item(i, y);
        h
    }
    pub fn array_sets_queued<R: IsRuntime, T: Item>(a: &SlabAllocator<R>, values: Vec<T>, i: usize, y: T, j: usize, z: T) -> HybridArray<T> {
        let h = a.new_array(values);
        h.set_item(i, y);
        h.set_item(j, z);
        h
    }
    pub fn array_dropped_queued<R: IsRuntime, T: Item>(a: &SlabAllocator<R>, values: Vec<T>, i: usize, y: T) -> HybridArray<T> {
        let h = a.new_array(values);
        let c = h.clone();
        c.set_item(i, y);
        drop(c);
        h
    }
    pub fn array_gpu_queued<R: IsRuntime, T: Item>(a: &SlabAllocator<R>, values: Vec<T>, i: usize, y: T) -> GpuArray<T> {
        let h = a.new_array(values);
        let g = h.clone().into_gpu_only();
        h.set_item(i, y);
        drop(h);
        g
    }
    pub fn array_ids<R: IsRuntime, T: Item>(a: &SlabAllocator<R>, values: Vec<T>, i: usize) -> (usize, Array<T>, Id<T>) {
        let h = a.new_array(values);
        (h.len(), h.array(), h.get_id(i))
    }
}
