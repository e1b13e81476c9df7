//! Entry points whose LLVM IR threads.py executes, one tree handle per thread.
//!
//! Keys can only be moved and compared, and values only moved, cloned and destroyed; each of these
//! is a call the executor answers (and, in the native library, a small table does).
use palmtree::{Entry, PalmTree, SyncShared, TreeConfig};
use std::cmp::Ordering;
use std::mem::ManuallyDrop;
use typenum::{U4, U5};

extern "C" {
    fn sym_cmp(a: u64, b: u64) -> i8;
    fn val_clone(v: u64) -> u64;
    fn val_drop(v: u64);
}

#[cfg(feature = "native")]
mod native;

#[derive(Clone, Copy)]
#[repr(transparent)]
pub struct K(u64);
impl Ord for K {
    fn cmp(&self, o: &K) -> Ordering {
        let r = unsafe { sym_cmp(self.0, o.0) };
        if r < 0 {
            Ordering::Less
        } else if r == 0 {
            Ordering::Equal
        } else {
            Ordering::Greater
        }
    }
}
impl PartialOrd for K {
    fn partial_cmp(&self, o: &K) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl PartialEq for K {
    fn eq(&self, o: &K) -> bool {
        self.cmp(o) == Ordering::Equal
    }
}
impl Eq for K {}

#[repr(transparent)]
pub struct V(u64);
impl V {
    fn out(self) -> u64 {
        ManuallyDrop::new(self).0
    }
}
impl Clone for V {
    fn clone(&self) -> V {
        V(unsafe { val_clone(self.0) })
    }
}
impl Drop for V {
    fn drop(&mut self) {
        unsafe { val_drop(self.0) }
    }
}

pub struct Cfg;
impl<K, V> TreeConfig<K, V> for Cfg {
    type BranchSize = U5;
    type LeafSize = U4;
    type PointerKind = SyncShared;
}
pub type T = PalmTree<K, V, Cfg>;

unsafe fn some(x: Option<V>, out: *mut u64) -> bool {
    match x {
        Some(v) => {
            *out = v.out();
            true
        }
        None => false,
    }
}
unsafe fn pair(x: Option<(K, V)>, out: *mut [u64; 2]) -> bool {
    match x {
        Some((k, v)) => {
            *out = [k.0, v.out()];
            true
        }
        None => false,
    }
}

#[no_mangle]
pub unsafe extern "C" fn t_size() -> usize {
    std::mem::size_of::<T>()
}
#[no_mangle]
pub unsafe extern "C" fn t_new(out: *mut T) {
    out.write(T::new())
}
#[no_mangle]
pub unsafe extern "C" fn t_load(out: *mut T, src: *const [u64; 2], n: usize) {
    out.write(T::load((0..n).map(|i| (K((*src.add(i))[0]), V((*src.add(i))[1])))))
}
#[no_mangle]
pub unsafe extern "C" fn t_insert(t: *mut T, k: u64, v: u64, old: *mut u64) -> bool {
    some((*t).insert(K(k), V(v)), old)
}
#[no_mangle]
pub unsafe extern "C" fn t_clone(t: *const T, out: *mut T) {
    out.write((*t).clone())
}
#[no_mangle]
pub unsafe extern "C" fn t_drop(t: *mut T) {
    t.drop_in_place()
}
#[no_mangle]
pub unsafe extern "C" fn t_remove(t: *mut T, k: u64, out: *mut [u64; 2]) -> bool {
    pair((*t).remove(&K(k)), out)
}
#[no_mangle]
pub unsafe extern "C" fn t_remove_lowest(t: *mut T, out: *mut [u64; 2]) -> bool {
    pair((*t).remove_lowest(), out)
}
#[no_mangle]
pub unsafe extern "C" fn t_remove_highest(t: *mut T, out: *mut [u64; 2]) -> bool {
    pair((*t).remove_highest(), out)
}
#[no_mangle]
pub unsafe extern "C" fn t_get(t: *const T, k: u64, out: *mut u64) -> bool {
    match (*t).get(&K(k)) {
        Some(v) => {
            *out = v.0;
            true
        }
        None => false,
    }
}
#[no_mangle]
pub unsafe extern "C" fn t_write(t: *mut T, k: u64, v: u64) -> bool {
    match (*t).get_mut(&K(k)) {
        Some(x) => {
            *x = V(v);
            true
        }
        None => {
            drop(V(v));
            false
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn t_entry(t: *mut T, k: u64, v: u64, old: *mut u64) -> bool {
    match (*t).entry(K(k)) {
        Entry::Occupied(e) => {
            drop(V(v));
            *old = e.remove().out();
            true
        }
        Entry::Vacant(e) => {
            e.insert(V(v));
            false
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn t_iter(t: *const T, out: *mut [u64; 2]) -> usize {
    let mut n = 0;
    for (k, v) in (*t).iter() {
        out.add(n).write([k.0, v.0]);
        n += 1;
    }
    n
}
#[no_mangle]
pub unsafe extern "C" fn t_iter_back(t: *const T, out: *mut [u64; 2]) -> usize {
    let mut n = 0;
    for (k, v) in (*t).iter().rev() {
        out.add(n).write([k.0, v.0]);
        n += 1;
    }
    n
}
#[no_mangle]
pub unsafe extern "C" fn t_range(t: *const T, lo: u64, out: *mut [u64; 2]) -> usize {
    let mut n = 0;
    for (k, v) in (*t).range(K(lo)..) {
        out.add(n).write([k.0, v.0]);
        n += 1;
    }
    n
}
/// Replaces every value, with the values given in `src`.
#[no_mangle]
pub unsafe extern "C" fn t_rewrite(t: *mut T, src: *const u64) -> usize {
    let mut n = 0;
    for (_, v) in (*t).iter_mut() {
        *v = V(*src.add(n));
        n += 1;
    }
    n
}
/// Consumes the tree, but only the first `limit` elements and then one from the end.
#[no_mangle]
pub unsafe extern "C" fn t_consume(t: *mut T, limit: usize, out: *mut [u64; 2]) -> usize {
    let mut n = 0;
    let mut it = t.read().into_iter();
    while n < limit {
        if !pair(it.next(), out.add(n)) {
            return n;
        }
        n += 1;
    }
    if pair(it.next_back(), out.add(n)) {
        n += 1;
    }
    n
}
/// Moves everything of `other` into `t`.
#[no_mangle]
pub unsafe extern "C" fn t_append(t: *mut T, other: *mut T) {
    (*t).append_left(other.read())
}
#[no_mangle]
pub unsafe extern "C" fn t_len(t: *const T) -> usize {
    (*t).len()
}
