//! A real palmtree driven next to an ordered reference list (the oracle).
//!
//! The reference is the list of (stored key, stored value) terms in ascending order. Stored keys
//! are compared as terms, i.e. the very key that was stored has to come back, not an equal one.
use crate::alloc::{self, call};
use crate::engine::*;
use crate::types::*;
use crate::{check, trace};
use palmtree::{Entry, PalmTree, PointerKind, TreeConfig};
use std::cmp::Ordering;
use std::marker::PhantomData;
use std::ops::Bound;

macro_rules! config {
    ($name:ident, $b:ident, $l:ident) => {
        pub struct $name<P>(PhantomData<P>);
        impl<K, V, P: PointerKind> TreeConfig<K, V> for $name<P> {
            type BranchSize = typenum::$b;
            type LeafSize = typenum::$l;
            type PointerKind = P;
        }
    };
}
config!(C44, U4, U4);
config!(C45, U4, U5);
config!(C54, U5, U4);
config!(C55, U5, U5);
config!(C46, U4, U6);
config!(C64, U6, U4);
config!(C66, U6, U6);
config!(C77, U7, U7);
config!(C57, U5, U7);
config!(C75, U7, U5);
config!(C88, U8, U8);
config!(C49, U4, U9);
config!(C10x12, U10, U12);
config!(C16x16, U16, U16);
config!(C32x63, U32, U63);
config!(C63x32, U63, U32);
config!(C65x128, U65, U128);
config!(C128x4, U128, U4);
config!(C129x5, U129, U5);
config!(C4x255, U4, U255);
config!(C5x256, U5, U256);
config!(C4x300, U4, U300);
config!(C260x4, U260, U4);
config!(C4x100000, U4, U100000);
config!(C100000x4, U100000, U4);

pub type Model = Vec<(Term, Term)>;

pub struct Sys<K: KeyT, V: ValT, C: TreeConfig<K, V>> {
    pub tree: PalmTree<K, V, C>,
    pub model: Model,
}

static mut NEXT_VAL: i64 = 0;
/// A value no other operation of this path has stored.
pub fn new_val() -> Term {
    unsafe {
        NEXT_VAL += 1;
        NEXT_VAL
    }
}
pub fn reset_vals() {
    unsafe { NEXT_VAL = 0 }
}

/// Position of a key in a reference list: Ok(index of the equal key) or Err(insertion point).
pub fn find(m: &Model, k: Term) -> Result<usize, usize> {
    let (mut lo, mut hi) = (0, m.len());
    while lo < hi {
        let mid = (lo + hi) / 2;
        match cmp(m[mid].0, k) {
            Ordering::Equal => return Ok(mid),
            Ordering::Less => lo = mid + 1,
            Ordering::Greater => hi = mid,
        }
    }
    Err(lo)
}

pub fn show_model(m: &Model) -> String {
    let v: Vec<String> = m.iter().map(|(k, v)| format!("{}:{}", show(*k), v)).collect();
    format!("[{}]", v.join(" "))
}

/// Run code that may panic; Err(message) if it did.
pub fn catch<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    let old = crate::expect_panic(true);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    crate::expect_panic(old);
    match r {
        Ok(r) => Ok(r),
        Err(p) => {
            if p.is::<Infeasible>() {
                std::panic::resume_unwind(p);
            }
            if p.is::<Injected>() {
                return Err("injected".into());
            }
            Err(crate::last_panic())
        }
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Bd {
    Un,
    In(Term),
    Ex(Term),
}
impl Bd {
    pub fn key<K: KeyT>(&self) -> Bound<K> {
        match self {
            Bd::Un => Bound::Unbounded,
            Bd::In(t) => Bound::Included(K::mk(*t)),
            Bd::Ex(t) => Bound::Excluded(K::mk(*t)),
        }
    }
    pub fn show(&self) -> String {
        match self {
            Bd::Un => "..".into(),
            Bd::In(t) => format!("={}", show(*t)),
            Bd::Ex(t) => format!("<>{}", show(*t)),
        }
    }
}
/// A bound with a chosen kind and a fresh symbolic key.
pub fn any_bound() -> Bd {
    match choose(3) {
        0 => Bd::In(fresh()),
        1 => Bd::Ex(fresh()),
        _ => Bd::Un,
    }
}
/// Does the pair of bounds have to be rejected by a panic?
pub fn bad_range(a: Bd, b: Bd) -> bool {
    match (a, b) {
        (Bd::Ex(x), Bd::Ex(y)) => cmp(x, y) != Ordering::Less,
        (Bd::In(x), Bd::In(y)) | (Bd::In(x), Bd::Ex(y)) | (Bd::Ex(x), Bd::In(y)) => cmp(x, y) == Ordering::Greater,
        _ => false,
    }
}
/// The part of the reference list within the bounds, as an index interval.
pub fn window(m: &Model, a: Bd, b: Bd) -> (usize, usize) {
    let lo = match a {
        Bd::Un => 0,
        Bd::In(k) => find(m, k).unwrap_or_else(|e| e),
        Bd::Ex(k) => match find(m, k) {
            Ok(i) => i + 1,
            Err(e) => e,
        },
    };
    let hi = match b {
        Bd::Un => m.len(),
        Bd::In(k) => match find(m, k) {
            Ok(i) => i + 1,
            Err(e) => e,
        },
        Bd::Ex(k) => find(m, k).unwrap_or_else(|e| e),
    };
    (lo, hi.max(lo))
}

/// How a two-ended walk picks its ends.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Walk {
    Front,
    Back,
    /// Alternate, starting at the front.
    Alt,
    /// a steps from the front, then b from the back, then chosen freely
    Any,
    /// chosen number of front steps, then chosen number of back steps, then front to the end
    Turn,
}
pub struct Walker {
    w: Walk,
    i: usize,
    a: usize,
    b: usize,
}
impl Walker {
    pub fn new(w: Walk, n: usize) -> Walker {
        let (mut a, mut b) = (0, 0);
        if w == Walk::Turn {
            a = choose(n + 1);
            b = choose(n - a + 1);
        }
        Walker { w, i: 0, a, b }
    }
    /// true = take from the front
    pub fn front(&mut self) -> bool {
        let i = self.i;
        self.i += 1;
        match self.w {
            Walk::Front => true,
            Walk::Back => false,
            Walk::Alt => i % 2 == 0,
            Walk::Any => choose(2) == 0,
            Walk::Turn => !(i >= self.a && i < self.a + self.b),
        }
    }
}

impl<K: KeyT, V: ValT, C: TreeConfig<K, V> + 'static> Sys<K, V, C> {
    pub fn new() -> Self {
        trace!("new tree (branch {} leaf {})", branch_size::<K, V, C>(), leaf_size::<K, V, C>());
        Sys { tree: call(PalmTree::new), model: Vec::new() }
    }
    pub fn from_parts(tree: PalmTree<K, V, C>, model: Model) -> Self {
        Sys { tree, model }
    }
    pub fn len(&self) -> usize {
        self.model.len()
    }

    fn model_insert(&mut self, k: Term, v: Term) -> Option<Term> {
        match find(&self.model, k) {
            Ok(i) => Some(std::mem::replace(&mut self.model[i].1, v)),
            Err(i) => {
                self.model.insert(i, (k, v));
                None
            }
        }
    }

    // ---- single-key operations ----------------------------------------------------------
    pub fn insert(&mut self, k: Term) {
        self.insert_with(k, false)
    }
    pub fn insert_with(&mut self, k: Term, recursive: bool) {
        let v = new_val();
        let t = &mut self.tree;
        let r = call(|| {
            let (k, v) = (K::mk(k), V::mk(v));
            let r = if recursive { t.insert_recursive(k, v) } else { t.insert(k, v) };
            r.map(|v| v.term())
        });
        trace!("insert{}({}, {}) -> {:?}", if recursive { "_recursive" } else { "" }, show(k), v, r);
        let want = self.model_insert(k, V::canon(v));
        check!(r == want, "insert({}) returned {:?}, expected {:?}", show(k), r, want);
    }
    pub fn remove(&mut self, k: Term) {
        let t = &mut self.tree;
        let r = call(|| {
            let k = K::mk(k);
            t.remove(&k).map(|(k, v)| (k.term(), v.term()))
        });
        trace!("remove({}) -> {:?}", show(k), r.map(|r| (show(r.0), r.1)));
        let want = find(&self.model, k).ok().map(|i| self.model.remove(i));
        check!(r == want, "remove({}) returned {:?}, expected {:?}", show(k), r, want);
    }
    pub fn remove_low(&mut self) {
        let t = &mut self.tree;
        let r = call(|| t.remove_lowest().map(|(k, v)| (k.term(), v.term())));
        trace!("remove_lowest() -> {:?}", r.map(|r| (show(r.0), r.1)));
        let want = if self.model.is_empty() { None } else { Some(self.model.remove(0)) };
        check!(r == want, "remove_lowest returned {:?}, expected {:?}", r, want);
    }
    pub fn remove_high(&mut self) {
        let t = &mut self.tree;
        let r = call(|| t.remove_highest().map(|(k, v)| (k.term(), v.term())));
        trace!("remove_highest() -> {:?}", r.map(|r| (show(r.0), r.1)));
        let want = self.model.pop();
        check!(r == want, "remove_highest returned {:?}, expected {:?}", r, want);
    }
    pub fn get(&self, k: Term) {
        let t = &self.tree;
        let r = call(|| t.get(&K::mk(k)).map(|v| v.term()));
        trace!("get({}) -> {:?}", show(k), r);
        let want = find(&self.model, k).ok().map(|i| self.model[i].1);
        check!(r == want, "get({}) returned {:?}, expected {:?}", show(k), r, want);
    }
    pub fn get_linear(&self, k: Term) {
        let t = &self.tree;
        let r = call(|| t.get_linear(&K::mk(k)).map(|v| v.term()));
        trace!("get_linear({}) -> {:?}", show(k), r);
        let want = find(&self.model, k).ok().map(|i| self.model[i].1);
        check!(r == want, "get_linear({}) returned {:?}, expected {:?}", show(k), r, want);
    }
    /// Lookup through the index operators: panics exactly when the key is absent.
    pub fn index(&mut self, k: Term) {
        let t = &mut self.tree;
        let r = catch(|| call(|| t[&K::mk(k)].term()));
        trace!("tree[{}] -> {:?}", show(k), r);
        let want = find(&self.model, k).ok();
        match (&r, want) {
            (Ok(v), Some(i)) => check!(*v == self.model[i].1, "index({}) gave {}, expected {}", show(k), v, self.model[i].1),
            (Err(_), None) => {}
            _ => violation(&format!("index({}) gave {:?}, expected {:?}", show(k), r, want)),
        }
        let nv = new_val();
        let t = &mut self.tree;
        let r = catch(|| call(|| t[&K::mk(k)] = V::mk(nv)));
        match (r, want) {
            (Ok(()), Some(i)) => self.model[i].1 = V::canon(nv),
            (Err(_), None) => {}
            (r, _) => violation(&format!("index_mut({}) gave {:?}", show(k), r)),
        }
    }
    pub fn get_mut(&mut self, k: Term) {
        let nv = new_val();
        let t = &mut self.tree;
        let r = call(|| {
            t.get_mut(&K::mk(k)).map(|v| {
                let o = v.term();
                *v = V::mk(nv);
                o
            })
        });
        trace!("get_mut({}) = {} -> {:?}", show(k), nv, r);
        let want = find(&self.model, k).ok();
        check!(
            r == want.map(|i| self.model[i].1),
            "get_mut({}) found {:?}, expected {:?}",
            show(k),
            r,
            want.map(|i| self.model[i].1)
        );
        if let Some(i) = want {
            self.model[i].1 = V::canon(nv);
        }
    }

    /// Everything an entry can do; the action is chosen per kind of entry.
    pub fn entry(&mut self, k: Term, max_act: usize) {
        let v1 = new_val();
        let v2 = new_val();
        enum Did {
            Vacant(Option<Term>),              // value stored
            Occ(Term, Term),                   // unchanged: key, value seen
            Set(Term, Term, Term),             // key, old, new
            Removed(Term, Term, bool),
        }
        let act = choose(max_act.min(7));
        let t = &mut self.tree;
        let did = call(|| match t.entry(K::mk(k)) {
            Entry::Vacant(e) => {
                if e.key().term() != k {
                    violation("vacant entry has another key");
                }
                match act {
                    0 | 3 => {
                        let r = e.insert(V::mk(v1));
                        if r.term() != V::canon(v1) {
                            violation("vacant entry insert returned a reference to another value");
                        }
                        Did::Vacant(Some(v1))
                    }
                    1 | 4 => {
                        let r = e.insert(V::mk(v1));
                        if r.term() != V::canon(v1) {
                            violation("vacant entry insert returned a reference to another value");
                        }
                        *r = V::mk(v2);
                        Did::Vacant(Some(v2))
                    }
                    2 | 5 => {
                        if e.into_key().term() != k {
                            violation("into_key returned another key");
                        }
                        Did::Vacant(None)
                    }
                    _ => {
                        drop(e);
                        Did::Vacant(None)
                    }
                }
            }
            Entry::Occupied(mut e) => {
                let ek = e.key().term();
                let ev = e.get().term();
                match act {
                    0 => {
                        let o = e.insert(V::mk(v1)).term();
                        if e.get().term() != V::canon(v1) || e.key().term() != ek {
                            violation("occupied entry does not show what was inserted");
                        }
                        Did::Set(ek, o, v1)
                    }
                    1 => {
                        *e.get_mut() = V::mk(v1);
                        Did::Set(ek, ev, v1)
                    }
                    2 => {
                        let r = e.into_mut();
                        if r.term() != ev {
                            violation("into_mut refers to another value");
                        }
                        *r = V::mk(v2);
                        Did::Set(ek, ev, v2)
                    }
                    3 => Did::Removed(ek, e.remove().term(), false),
                    4 => {
                        let (k, v) = e.remove_entry();
                        if k.term() != ek {
                            violation("remove_entry returned another key");
                        }
                        Did::Removed(ek, v.term(), true)
                    }
                    _ => {
                        drop(e);
                        Did::Occ(ek, ev)
                    }
                }
            }
        });
        let at = find(&self.model, k);
        match did {
            Did::Vacant(s) => {
                trace!("entry({}) vacant, act {act}, stored {:?}", show(k), s);
                reach("vacant");
                match at {
                    Ok(_) => violation("entry of a present key is vacant"),
                    Err(i) => {
                        if let Some(v) = s {
                            self.model.insert(i, (k, V::canon(v)))
                        }
                    }
                }
            }
            Did::Occ(ek, ev) | Did::Set(ek, ev, _) | Did::Removed(ek, ev, _) => {
                trace!("entry({}) occupied by ({}, {}), act {act}", show(k), show(ek), ev);
                reach("occupied");
                match at {
                    Err(_) => violation("entry of an absent key is occupied"),
                    Ok(i) => {
                        check!(self.model[i] == (ek, ev), "occupied entry shows ({}, {}), expected {:?}", show(ek), ev, self.model[i]);
                        match did {
                            Did::Set(_, _, n) => self.model[i].1 = V::canon(n),
                            Did::Removed(..) => {
                                self.model.remove(i);
                            }
                            _ => {}
                        }
                    }
                }
            }
        }
    }

    // ---- iteration ----------------------------------------------------------------------
    fn expect_item(&self, got: Option<(Term, Term)>, lo: &mut usize, hi: &mut usize, front: bool, what: &str) {
        let want = if *lo >= *hi {
            None
        } else if front {
            *lo += 1;
            Some(self.model[*lo - 1])
        } else {
            *hi -= 1;
            Some(self.model[*hi])
        };
        if got != want {
            violation(&format!(
                "{what}: {} step yielded {:?}, expected {:?}",
                if front { "front" } else { "back" },
                got.map(|g| (show(g.0), g.1)),
                want.map(|g| (show(g.0), g.1))
            ));
        }
        eng().st.obligations += 1;
    }

    /// Iterate over a range by shared reference; checks every yielded entry and the end.
    pub fn walk(&self, a: Bd, b: Bd, w: Walk, full: bool) {
        let bad = bad_range(a, b);
        let t = &self.tree;
        let it = catch_if(bad, || call(|| if full { t.iter() } else { t.range((a.key::<K>(), b.key::<K>())) }));
        trace!("range({}, {}) {:?} {}", a.show(), b.show(), w, if it.is_none() { "panicked" } else { "" });
        if bad {
            reach("rejected");
        }
        let mut it = match it {
            None => {
                check!(bad, "range panicked on valid bounds");
                return;
            }
            Some(it) => it,
        };
        check!(!bad, "range accepted bounds it has to reject");
        let (mut lo, mut hi) = window(&self.model, a, b);
        let mut wk = Walker::new(w, hi - lo);
        let mut guard = 0;
        loop {
            let front = wk.front();
            let got = call(|| if front { it.next() } else { it.next_back() });
            let got = got.map(|(k, v)| (k.term(), v.term()));
            trace!("  {} -> {:?}", if front { "next" } else { "next_back" }, got.map(|g| (show(g.0), g.1)));
            let end = lo >= hi;
            self.expect_item(got, &mut lo, &mut hi, front, "range");
            if end {
                guard += 1;
                if guard == 3 || (w == Walk::Any && guard == 2) {
                    break;
                }
            }
        }
    }

    /// A clone of a shared iterator taken at a chosen point continues on its own.
    pub fn walk_cloned(&self, a: Bd, b: Bd) {
        if bad_range(a, b) {
            return;
        }
        let t = &self.tree;
        let mut it = call(|| t.range((a.key::<K>(), b.key::<K>())));
        let (mut lo, mut hi) = window(&self.model, a, b);
        let (f, k) = (choose(hi - lo + 1), 0);
        let bk = choose(hi - lo - f + 1 + k);
        for _ in 0..f {
            let g = call(|| it.next()).map(|(k, v)| (k.term(), v.term()));
            self.expect_item(g, &mut lo, &mut hi, true, "original");
        }
        for _ in 0..bk {
            let g = call(|| it.next_back()).map(|(k, v)| (k.term(), v.term()));
            self.expect_item(g, &mut lo, &mut hi, false, "original");
        }
        self.go_on(it, lo, hi)
    }
    /// The same on the full iterator, `steps` steps into a forward, backward or alternating walk.
    pub fn walk_cloned_at(&self, steps: usize, how: usize) {
        let t = &self.tree;
        let mut it = call(|| t.iter());
        let (mut lo, mut hi) = (0, self.model.len());
        for i in 0..steps {
            let front = how == 0 || how == 2 && i % 2 == 0;
            let g = call(|| if front { it.next() } else { it.next_back() }).map(|(k, v)| (k.term(), v.term()));
            self.expect_item(g, &mut lo, &mut hi, front, "original");
        }
        self.go_on(it, lo, hi)
    }
    fn go_on(&self, mut it: palmtree::Iter<'_, K, V, C>, mut lo: usize, mut hi: usize) {
        let mut it2 = call(|| it.clone());
        let (mut lo2, mut hi2) = (lo, hi);
        let orig_first = choose(2) == 0;
        let run = |it: &mut palmtree::Iter<'_, K, V, C>, lo: &mut usize, hi: &mut usize, front: bool| loop {
            let end = *lo >= *hi;
            let g = call(|| if front { it.next() } else { it.next_back() }).map(|(k, v)| (k.term(), v.term()));
            self.expect_item(g, lo, hi, front, "copied iterator");
            if end {
                break;
            }
        };
        if orig_first {
            run(&mut it, &mut lo, &mut hi, true);
            run(&mut it2, &mut lo2, &mut hi2, false);
        } else {
            run(&mut it2, &mut lo2, &mut hi2, true);
            run(&mut it, &mut lo, &mut hi, false);
        }
    }

    /// Iterate by mutable reference, keep every reference, write through all of them at the end.
    pub fn walk_mut(&mut self, a: Bd, b: Bd, w: Walk, full: bool) {
        let bad = bad_range(a, b);
        let n = {
            let (lo, hi) = window(&self.model, a, b);
            hi - lo
        };
        let mut wk = if bad { Walker::new(Walk::Front, 0) } else { Walker::new(w, n) };
        let mut got: Vec<(bool, Option<(Term, Term)>)> = Vec::new();
        let mut wrote: Vec<(Term, Term)> = Vec::new();
        let mut panicked = false;
        {
            let t = &mut self.tree;
            let it = catch_if(bad, || call(|| if full { t.iter_mut() } else { t.range_mut((a.key::<K>(), b.key::<K>())) }));
            trace!("range_mut({}, {}) {:?} {}", a.show(), b.show(), w, if it.is_none() { "panicked" } else { "" });
            if let Some(mut it) = it {
                let mut refs: Vec<(Term, &mut V)> = Vec::new();
                let mut nones = 0;
                loop {
                    let front = wk.front();
                    let r = call(|| if front { it.next() } else { it.next_back() });
                    match r {
                        Some((k, v)) => {
                            got.push((front, Some((k.term(), v.term()))));
                            if std::mem::size_of::<V>() > 0 && refs.iter().any(|(_, r)| std::ptr::eq(*r as *const V, v as *const V)) {
                                violation("a mutable iterator handed out two references to one value");
                            }
                            refs.push((k.term(), v));
                            if refs.len() > n + 4 {
                                violation("a mutable iterator yields more entries than the range holds");
                            }
                        }
                        None => {
                            got.push((front, None));
                            nones += 1;
                            if nones == 2 {
                                break;
                            }
                        }
                    }
                }
                drop(it);
                for (k, r) in refs {
                    let nv = new_val();
                    call(|| *r = V::mk(nv));
                    wrote.push((k, nv));
                }
            } else {
                panicked = true;
            }
        }
        if bad {
            reach("rejected");
        }
        check!(panicked == bad, "range_mut on bounds {} {}: panicked={}", a.show(), b.show(), panicked);
        if panicked {
            return;
        }
        let (mut lo, mut hi) = window(&self.model, a, b);
        for (front, g) in got {
            self.expect_item(g, &mut lo, &mut hi, front, "range_mut");
        }
        check!(lo == hi, "range_mut stopped early");
        for (k, v) in wrote {
            let i = self.model.iter().position(|e| e.0 == k).unwrap_or_else(|| violation("range_mut yielded an unknown key"));
            self.model[i].1 = V::canon(v);
        }
    }

    /// Like `walk`, but after a few steps the rest is taken by one of the standard iterator methods.
    pub fn adapt(&self, a: Bd, b: Bd, full: bool) {
        if bad_range(a, b) {
            return;
        }
        let t = &self.tree;
        let it = call(|| if full { t.iter() } else { t.range((a.key::<K>(), b.key::<K>())) });
        let (lo, hi) = window(&self.model, a, b);
        rest(it, &self.model[lo..hi], |(k, v)| (k.term(), v.term()), "shared iterator");
    }
    pub fn adapt_mut(&mut self, a: Bd, b: Bd, full: bool) {
        if bad_range(a, b) {
            return;
        }
        let (lo, hi) = window(&self.model, a, b);
        let t = &mut self.tree;
        let it = call(|| if full { t.iter_mut() } else { t.range_mut((a.key::<K>(), b.key::<K>())) });
        rest(it, &self.model[lo..hi], |(k, v)| (k.term(), v.term()), "mutable iterator");
    }

    // ---- whole-tree checks --------------------------------------------------------------
    /// Contents, order, both iteration directions, length, and a lookup of every key.
    pub fn check_all(&self) {
        self.check_iter();
        let t = &self.tree;
        for &(k, v) in &self.model {
            let r = call(|| t.get(&K::mk(k)).map(|v| v.term()));
            if r != Some(v) {
                violation(&format!("get({}) returned {:?}, expected Some({}) in {}", show(k), r, v, show_model(&self.model)));
            }
        }
        eng().st.obligations += self.model.len() as u64;
    }
    pub fn check_iter(&self) {
        let t = &self.tree;
        let n = self.model.len();
        check!(t.len() == n, "len() = {}, expected {}", t.len(), n);
        check!(t.is_empty() == (n == 0), "is_empty() wrong at length {n}");
        let mut prev: Option<Term> = None;
        let mut it = call(|| t.iter());
        for i in 0..=n {
            let g = call(|| it.next()).map(|(k, v)| (k.term(), v.term()));
            if g != self.model.get(i).copied() {
                violation(&format!(
                    "iteration position {i} is {:?}, expected {}",
                    g.map(|g| (show(g.0), g.1)),
                    show_model(&self.model)
                ));
            }
            if let (Some(p), Some((k, _))) = (prev, g) {
                eng().must_lt(p, k);
            }
            prev = g.map(|g| g.0);
        }
        let mut it = call(|| t.iter());
        for i in 0..=n {
            let g = call(|| it.next_back()).map(|(k, v)| (k.term(), v.term()));
            let want = if i < n { Some(self.model[n - 1 - i]) } else { None };
            if g != want {
                violation(&format!(
                    "backward iteration position {i} is {:?}, expected {:?} in {}",
                    g.map(|g| (show(g.0), g.1)),
                    want.map(|g| (show(g.0), g.1)),
                    show_model(&self.model)
                ));
            }
        }
        eng().st.obligations += 2 * n as u64;
    }
    /// Every range between two stored keys' neighbourhoods, cheaply: one chosen pair of stored keys.
    pub fn finish(self) {
        let Sys { tree, model } = self;
        call(|| drop(tree));
        drop(model);
        check_clean();
    }
    pub fn fork(&self) -> Self {
        let t = &self.tree;
        trace!("clone");
        Sys { tree: call(|| t.clone()), model: self.model.clone() }
    }
    /// Drop two trees, then check that nothing is left.
    pub fn finish2<K2: KeyT, V2: ValT, C2: TreeConfig<K2, V2>>(self, o: Sys<K2, V2, C2>) {
        call(|| drop(self.tree));
        call(|| drop(o.tree));
        check_clean();
    }
    pub fn done(self) {
        let t = self.tree;
        call(|| drop(t));
    }
}

pub fn branch_size<K, V, C: TreeConfig<K, V>>() -> usize {
    <C::BranchSize as typenum::Unsigned>::USIZE
}
pub fn leaf_size<K, V, C: TreeConfig<K, V>>() -> usize {
    <C::LeafSize as typenum::Unsigned>::USIZE
}

/// 0 ..= n, or for a large n the numbers around node boundaries and the ends
fn some_of(n: usize) -> usize {
    if n <= 12 {
        return choose(n + 1);
    }
    let mut v = vec![0, 1, 3, 4, 5, 16, 17, 64, n / 2, n - 1, n];
    v.retain(|&x| x <= n);
    v.sort();
    v.dedup();
    v[choose(v.len())]
}
/// After a chosen number of steps from each end, every standard method that consumes an iterator
/// must give what repeated stepping would.
pub fn rest<A: Ord, I: DoubleEndedIterator<Item = A>>(mut it: I, want: &[(Term, Term)], see: impl Fn(&A) -> (Term, Term), what: &str) {
    let few = |n: usize| [0, 1, n / 2, n][choose(4)].min(n);
    let f = few(want.len());
    let b = few(want.len() - f);
    for i in 0..f {
        let g = call(|| it.next().map(|x| see(&x)));
        check!(g == Some(want[i]), "{what}: step {i} yielded {:?}, expected {:?}", g, want[i]);
    }
    for i in 0..b {
        let g = call(|| it.next_back().map(|x| see(&x)));
        let w = want[want.len() - 1 - i];
        check!(g == Some(w), "{what}: step {i} from the back yielded {:?}, expected {:?}", g, w);
    }
    let want = &want[f..want.len() - b];
    let n = want.len();
    let (l, h) = call(|| it.size_hint());
    check!(l <= n && h.map_or(true, |h| n <= h), "{what}: size_hint ({l}, {h:?}) with {n} entries left");
    let mut got: Vec<(Term, Term)> = Vec::with_capacity(n + 64);
    let m = choose(16);
    let name = ["nth", "nth_back", "last", "count", "fold", "rfold", "for_each", "collect", "min", "max", "rev", "skip", "step_by", "take", "find", "rfind"][m];
    trace!("{what}: {f} front, {b} back, then {name}");
    let mut expect: Vec<(Term, Term)> = want.to_vec();
    let cap = |got: &Vec<_>| got.len() < n + 4;
    match m {
        0 | 1 => {
            let j = some_of(n + 1);
            let mut g = call(|| if m == 0 { it.nth(j) } else { it.nth_back(j) }.map(|x| see(&x)));
            while let Some(x) = g {
                if !cap(&got) {
                    break;
                }
                got.push(x);
                g = call(|| if m == 0 { it.next() } else { it.next_back() }.map(|x| see(&x)));
            }
            if m == 1 {
                expect.reverse();
            }
            expect.drain(..j.min(n));
            let g = call(|| it.next().is_some() || it.next_back().is_some() || it.nth(0).is_some() || it.nth_back(1).is_some());
            check!(!g, "{what}: {name}({j}) then a step yielded more than is left");
        }
        2 => {
            got.extend(call(|| it.last().map(|x| see(&x))));
            expect.drain(..n.saturating_sub(1));
        }
        3 => {
            let c = call(|| it.count());
            check!(c == n, "{what}: count() = {c} with {n} entries left");
            expect.clear();
        }
        4 | 5 => {
            let g = &mut got;
            let f = |mut c: usize, x: A| {
                if c < n + 4 {
                    g.push(see(&x));
                }
                c += 1;
                c
            };
            let c = call(|| if m == 4 { it.fold(0, f) } else { it.rfold(0, f) });
            check!(c == n, "{what}: {name} visited {c} entries, {n} left");
            if m == 5 {
                expect.reverse();
            }
        }
        6 => {
            let g = &mut got;
            call(|| {
                it.for_each(|x| {
                    if g.len() < n + 4 {
                        g.push(see(&x))
                    }
                })
            });
        }
        7 => {
            let g = &mut got;
            call(|| {
                let v: Vec<A> = it.collect();
                for x in v.iter().take(n + 4) {
                    g.push(see(x));
                }
            });
        }
        8 => {
            got.extend(call(|| it.min().map(|x| see(&x))));
            expect.truncate(1);
        }
        9 => {
            got.extend(call(|| it.max().map(|x| see(&x))));
            expect.drain(..n.saturating_sub(1));
        }
        10 => {
            let mut r = it.rev();
            let j = some_of(n);
            while let Some(x) = call(|| if got.is_empty() { r.nth(j) } else { r.next() }.map(|x| see(&x))) {
                if !cap(&got) {
                    break;
                }
                got.push(x);
            }
            call(|| drop(r));
            expect.reverse();
            expect.drain(..j.min(n));
        }
        11 | 12 => {
            let j = some_of(n);
            let g = &mut got;
            let mut push = |x: A| {
                if g.len() < n + 4 {
                    g.push(see(&x))
                }
            };
            call(|| if m == 11 { it.skip(j).for_each(&mut push) } else { it.step_by(j + 1).for_each(&mut push) });
            if m == 11 {
                expect.drain(..j.min(n));
            } else {
                expect = expect.into_iter().step_by(j + 1).collect();
            }
        }
        13 => {
            let j = some_of(n);
            let g = &mut got;
            call(|| {
                it.by_ref().take(j).for_each(|x| g.push(see(&x)));
                while let Some(x) = it.next_back() {
                    if g.len() > n + 3 {
                        break;
                    }
                    g.push(see(&x));
                }
            });
            expect[j..].reverse();
        }
        _ => {
            let j = some_of(n);
            let mut i = 0;
            let mut at = |_: &A| {
                i += 1;
                i > j
            };
            got.extend(call(|| if m == 14 { it.find(&mut at) } else { it.rfind(&mut at) }.map(|x| see(&x))));
            let g = &mut got;
            call(|| {
                while let Some(x) = it.next() {
                    if g.len() > n + 3 {
                        break;
                    }
                    g.push(see(&x));
                }
            });
            if m == 14 {
                expect.drain(..j.min(n));
            } else if j < n {
                let x = expect[n - 1 - j];
                expect.truncate(n - 1 - j);
                expect.insert(0, x);
            } else {
                expect.clear();
            }
        }
    }
    eng().st.obligations += 1 + expect.len() as u64;
    check!(got == expect, "{what}: {name} gave {:?}, expected {:?}", got, expect);
}
fn catch_if<R>(may: bool, f: impl FnOnce() -> R) -> Option<R> {
    if may {
        catch(f).ok()
    } else {
        Some(f())
    }
}

/// Nothing may be left of any tree, iterator or returned item.
pub fn check_clean() {
    let n = live_instances();
    check!(n == 0, "{n} keys or values were never released");
    let b = alloc::live();
    check!(b == 0, "{b} memory blocks were never released");
}

// ---- prestates -----------------------------------------------------------------------------

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Build {
    Load,
    Asc,
    Desc,
    Zig,
    Mid,
    RecAsc,
    RecDesc,
    RecZig,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Thin {
    None,
    /// remove one chosen contiguous run of keys, in ascending or descending order
    Gap,
    /// remove one chosen run, ascending
    GapUp,
    /// keep at most two chosen keys
    KeepTwo,
    /// keep at most two keys, chosen from every fourth position and the last
    KeepPair,
    /// remove a freely chosen subset
    Mask,
    /// remove everything, lowest or highest first
    All,
    /// remove a chosen number from the front and from the back by remove_lowest/remove_highest
    Ends,
    /// remove two disjoint chosen runs
    TwoGaps,
    /// remove one chosen run of keys, then refill it in a chosen order
    Refill,
    /// remove a chosen run of 1..=.0 keys, then insert 0..=.1 new keys just below where the highest
    /// of them was, ascending or descending (nodes whose recorded bound is above their contents)
    Notch(usize, usize),
    /// the same with `insert_recursive`
    NotchRec(usize, usize),
}

impl Thin {
    pub fn only(self, c: bool) -> Thin {
        if c {
            self
        } else {
            Thin::None
        }
    }
    pub fn quick(self, thorough: bool, q: Thin) -> Thin {
        if thorough {
            self
        } else {
            q
        }
    }
}
pub fn order(b: Build, n: usize) -> Vec<usize> {
    match b {
        Build::Desc | Build::RecDesc => (0..n).rev().collect(),
        Build::Zig | Build::RecZig => {
            let (mut lo, mut hi) = (0, n);
            let mut v = Vec::new();
            while lo < hi {
                v.push(lo);
                lo += 1;
                if lo < hi {
                    hi -= 1;
                    v.push(hi);
                }
            }
            v
        }
        Build::Mid => {
            // ends first, then towards the middle of every half: splits inner nodes away from the edges
            let mut v: Vec<usize> = Vec::new();
            let mut step = n.next_power_of_two();
            while step >= 1 {
                for i in (0..n).step_by(step) {
                    if !v.contains(&i) {
                        v.push(i);
                    }
                }
                step /= 2;
            }
            v
        }
        _ => (0..n).collect(),
    }
}

pub fn build<K: KeyT, V: ValT, C: TreeConfig<K, V> + 'static>(b: Build, keys: &[Term]) -> Sys<K, V, C> {
    trace!("build {:?} with {} keys", b, keys.len());
    match b {
        Build::Load => {
            let model: Model = keys.iter().map(|&k| (k, new_val())).collect();
            let m = model.clone();
            let tree = call(|| PalmTree::load(m.iter().map(|&(k, v)| (K::mk(k), V::mk(v)))));
            Sys { tree, model: model.into_iter().map(|(k, v)| (k, V::canon(v))).collect() }
        }
        _ => {
            let mut s = Sys::new();
            let rec = matches!(b, Build::RecAsc | Build::RecDesc | Build::RecZig);
            for i in order(b, keys.len()) {
                s.insert_with(keys[i], rec);
            }
            s
        }
    }
}

fn pick_run(n: usize) -> (usize, usize) {
    // one of the n(n+1)/2 non-empty runs, or the empty one
    let c = choose(1 + n * (n + 1) / 2);
    if c == 0 {
        return (0, 0);
    }
    let mut c = c - 1;
    for a in 0..n {
        if c < n - a {
            return (a, a + c + 1);
        }
        c -= n - a;
    }
    unreachable!()
}

pub fn thin<K: KeyT, V: ValT, C: TreeConfig<K, V> + 'static>(s: &mut Sys<K, V, C>, t: Thin) {
    let keys: Vec<Term> = s.model.iter().map(|e| e.0).collect();
    let n = keys.len();
    match t {
        Thin::None | Thin::Notch(..) | Thin::NotchRec(..) => {}
        Thin::Gap | Thin::GapUp => {
            let (a, b) = pick_run(n);
            let down = t == Thin::Gap && b - a > 1 && choose(2) == 1;
            for i in a..b {
                s.remove(keys[if down { a + b - 1 - i } else { i }]);
            }
        }
        Thin::TwoGaps => {
            let (a, b) = pick_run(n);
            for i in a..b {
                s.remove(keys[i]);
            }
            if b > a && b < n {
                let (c, d) = pick_run(n - b);
                for i in c..d {
                    s.remove(keys[b + i]);
                }
            }
        }
        Thin::KeepTwo | Thin::KeepPair => {
            if n == 0 {
                return;
            }
            let mut c: Vec<usize> = (0..n).step_by(if t == Thin::KeepTwo { 1 } else { 4 }).collect();
            if c.last() != Some(&(n - 1)) {
                c.push(n - 1);
            }
            let i = choose(c.len());
            let (i, j) = (c[i], c[i + choose(c.len() - i)]);
            let up = choose(2) == 0;
            for x in 0..n {
                let x = if up { x } else { n - 1 - x };
                if x != i && x != j {
                    s.remove(keys[x]);
                }
            }
        }
        Thin::Mask => {
            for &k in &keys {
                if choose(2) == 1 {
                    s.remove(k);
                }
            }
        }
        Thin::All => {
            let up = choose(2) == 0;
            for _ in 0..n {
                if up {
                    s.remove_low()
                } else {
                    s.remove_high()
                }
            }
        }
        Thin::Ends => {
            let a = choose(n + 1);
            let b = choose(n - a + 1);
            for _ in 0..a {
                s.remove_low();
            }
            for _ in 0..b {
                s.remove_high();
            }
        }
        Thin::Refill => {
            let (a, b) = pick_run(n);
            for i in a..b {
                s.remove(keys[i]);
            }
            let down = b - a > 1 && choose(2) == 1;
            for i in a..b {
                s.insert(keys[if down { a + b - 1 - i } else { i }]);
            }
        }
    }
}

/// n ascending keys: symbolic up to 150 of them, beyond that widely spaced integers (every total
/// order on n keys is isomorphic to it; fresh symbolic keys still range over all positions).
pub fn chain(n: usize) -> Vec<Term> {
    if n <= 150 {
        eng().chain(n)
    } else {
        (0..n as i64).map(|i| i << 24).collect()
    }
}

pub fn prestate<K: KeyT, V: ValT, C: TreeConfig<K, V> + 'static>(b: Build, n: usize, t: Thin) -> Sys<K, V, C> {
    if let Thin::Notch(r, l) | Thin::NotchRec(r, l) = t {
        if n > 0 {
            return notch(b, n, r, l, matches!(t, Thin::NotchRec(..)));
        }
    }
    let keys = chain(n);
    let mut s = build(b, &keys);
    thin(&mut s, t);
    s
}
fn notch<K: KeyT, V: ValT, C: TreeConfig<K, V> + 'static>(b: Build, n: usize, r: usize, l: usize, rec: bool) -> Sys<K, V, C> {
    let keys = chain(n + l);
    let i = choose(n);
    let r = 1 + choose(r.min(i + 1));
    let j = choose(l + 1);
    let down = j > 1 && choose(2) == 1;
    // keys[i..i + l] are the new ones, keys[i + l] is the highest key of the run
    let base: Vec<Term> = keys[..i].iter().chain(&keys[i + l..]).copied().collect();
    let mut s = build::<K, V, C>(b, &base);
    trace!("notch below {}", show(base[i]));
    for x in i + 1 - r..=i {
        s.remove(base[x]);
    }
    for x in 0..j {
        s.insert_with(keys[i + if down { j - 1 - x } else { x }], rec);
    }
    s
}
