//! What iterator consumers of the standard library do, written as plain loops over `next`. The
//! analyser reads these bodies in place of the standard library's (unrolled, unsafe) ones.
pub fn iter_fold<I: Iterator, B, F: FnMut(B, I::Item) -> B>(mut it: I, init: B, mut f: F) -> B {
    let mut acc = init;
    while let Some(x) = it.next() {
        acc = f(acc, x);
    }
    acc
}
pub fn iter_for_each<I: Iterator, F: FnMut(I::Item)>(mut it: I, mut f: F) {
    while let Some(x) = it.next() {
        f(x);
    }
}
pub fn iter_all<I: Iterator, F: FnMut(I::Item) -> bool>(it: &mut I, mut f: F) -> bool {
    while let Some(x) = it.next() {
        if !f(x) {
            return false;
        }
    }
    true
}
pub fn iter_any<I: Iterator, F: FnMut(I::Item) -> bool>(it: &mut I, mut f: F) -> bool {
    while let Some(x) = it.next() {
        if f(x) {
            return true;
        }
    }
    false
}
pub fn iter_position<I: Iterator, F: FnMut(I::Item) -> bool>(it: &mut I, mut f: F) -> Option<usize> {
    let mut i = 0usize;
    while let Some(x) = it.next() {
        if f(x) {
            return Some(i);
        }
        i += 1;
    }
    None
}
pub fn iter_find<I: Iterator, P: FnMut(&I::Item) -> bool>(it: &mut I, mut f: P) -> Option<I::Item> {
    while let Some(x) = it.next() {
        if f(&x) {
            return Some(x);
        }
    }
    None
}
pub fn iter_find_map<I: Iterator, B, F: FnMut(I::Item) -> Option<B>>(it: &mut I, mut f: F) -> Option<B> {
    while let Some(x) = it.next() {
        let y = f(x);
        if y.is_some() {
            return y;
        }
    }
    None
}
pub fn iter_count<I: Iterator>(mut it: I) -> usize {
    let mut n = 0usize;
    while let Some(_) = it.next() {
        n += 1;
    }
    n
}
pub fn iter_last<I: Iterator>(mut it: I) -> Option<I::Item> {
    let mut last = None;
    while let Some(x) = it.next() {
        last = Some(x);
    }
    last
}
pub fn iter_nth<I: Iterator>(it: &mut I, n: usize) -> Option<I::Item> {
    let mut i = 0usize;
    while i < n {
        it.next()?;
        i += 1;
    }
    it.next()
}
#[cfg(not(target_arch = "spirv"))]
pub fn vec_from_iter<A, I: IntoIterator<Item = A>>(it: I) -> Vec<A> {
    let mut v = Vec::new();
    let mut it = it.into_iter();
    while let Some(x) = it.next() {
        v.push(x);
    }
    v
}
#[cfg(not(target_arch = "spirv"))]
pub fn vec_extend<A, I: IntoIterator<Item = A>>(v: &mut Vec<A>, it: I) {
    let mut it = it.into_iter();
    while let Some(x) = it.next() {
        v.push(x);
    }
}
#[cfg(not(target_arch = "spirv"))]
pub fn vec_extend_ref<'a, A: Copy + 'a, I: IntoIterator<Item = &'a A>>(v: &mut Vec<A>, it: I) {
    let mut it = it.into_iter();
    while let Some(x) = it.next() {
        v.push(*x);
    }
}
#[cfg(not(target_arch = "spirv"))]
pub fn option_from_iter<A, V: FromIterator<A>, I: IntoIterator<Item = Option<A>>>(it: I) -> Option<V> {
    let mut v = Vec::new();
    let mut it = it.into_iter();
    while let Some(x) = it.next() {
        v.push(x?);
    }
    Some(v.into_iter().collect())
}
#[cfg(not(target_arch = "spirv"))]
pub fn result_from_iter<A, E, V: FromIterator<A>, I: IntoIterator<Item = Result<A, E>>>(it: I) -> Result<V, E> {
    let mut v = Vec::new();
    let mut it = it.into_iter();
    while let Some(x) = it.next() {
        v.push(x?);
    }
    Ok(v.into_iter().collect())
}
#[cfg(not(target_arch = "spirv"))]
pub fn arc_default<T: Default>() -> std::sync::Arc<T> {
    std::sync::Arc::new(T::default())
}
#[cfg(not(target_arch = "spirv"))]
pub fn mutex_default<T: Default>() -> std::sync::Mutex<T> {
    std::sync::Mutex::new(T::default())
}
#[cfg(not(target_arch = "spirv"))]
pub fn rwlock_default<T: Default>() -> std::sync::RwLock<T> {
    std::sync::RwLock::new(T::default())
}
#[cfg(not(target_arch = "spirv"))]
pub fn set_extend<T: Eq + std::hash::Hash, S: std::hash::BuildHasher, I: IntoIterator<Item = T>>(s: &mut std::collections::HashSet<T, S>, it: I) {
    let mut it = it.into_iter();
    while let Some(x) = it.next() {
        s.insert(x);
    }
}
