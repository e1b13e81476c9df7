//! The scenarios explored for each property: prestate families x symbolic operations.
use crate::alloc::call;
use crate::engine::*;
use crate::sys::*;
use crate::types::*;
use crate::{check, trace, Scen};
use palmtree::{MergeIter, PalmTree, Shared, SyncShared, Tree64, TreeConfig, Unique};
use std::collections::BTreeMap;
use std::hash::{Hash, Hasher};

pub struct Out {
    v: Vec<Scen>,
    pub thorough: bool,
}
impl Out {
    fn add(&mut self, name: impl Into<String>, bounds: impl Into<String>, f: impl Fn() + 'static) -> &mut Scen {
        let name: String = name.into();
        assert!(self.v.iter().all(|s| s.name != name), "duplicate scenario {name}");
        self.v.push(Scen { name, bounds: bounds.into(), labels: vec![], f: Box::new(f) });
        self.v.last_mut().unwrap()
    }
    /// quick value, thorough value
    fn q<T>(&self, a: T, b: T) -> T {
        if self.thorough {
            b
        } else {
            a
        }
    }
}

impl Out {
    /// any two survivors, or in the quick tier survivors on leaf boundaries
    fn keep(&self) -> Thin {
        self.q(Thin::KeepPair, Thin::KeepTwo)
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Op {
    Ins,
    InsRec,
    Rem,
    RemLow,
    RemHigh,
    Get,
    GetLin,
    GetMut,
    Index,
    Entry,
    EntryShort,
    Range,
    RangeBack,
    RangeMut,
    IterMut,
    IterAlt,
    Check,
}
use Op::*;

fn apply<K: KeyT, V: ValT, C: TreeConfig<K, V> + 'static>(s: &mut Sys<K, V, C>, op: Op) {
    match op {
        Ins => s.insert(fresh()),
        InsRec => s.insert_with(fresh(), true),
        Rem => s.remove(fresh()),
        RemLow => s.remove_low(),
        RemHigh => s.remove_high(),
        Get => s.get(fresh()),
        GetLin => s.get_linear(fresh()),
        GetMut => s.get_mut(fresh()),
        Index => s.index(fresh()),
        Entry => s.entry(fresh(), 7),
        EntryShort => s.entry(fresh(), 2),
        Range => s.walk(any_bound(), any_bound(), Walk::Front, false),
        RangeBack => s.walk(any_bound(), any_bound(), Walk::Back, false),
        RangeMut => s.walk_mut(any_bound(), any_bound(), Walk::Alt, false),
        IterMut => s.walk_mut(Bd::Un, Bd::Un, Walk::Front, true),
        IterAlt => s.walk(Bd::Un, Bd::Un, Walk::Alt, true),
        Check => s.check_all(),
    }
}
fn any_op<K: KeyT, V: ValT, C: TreeConfig<K, V> + 'static>(s: &mut Sys<K, V, C>, ops: &[Op]) {
    apply(s, ops[choose(ops.len())])
}

/// Histories from the empty tree: every operation sequence of the given shape, all keys symbolic.
fn hist<K: KeyT, V: ValT, C: TreeConfig<K, V> + 'static>(o: &mut Out, tag: &str, steps: Vec<Vec<Op>>) {
    let n = steps.len();
    let shape: Vec<String> = steps.iter().map(|s| format!("{s:?}")).collect();
    o.add(
        format!("{tag}/history-{n}-{}", shape.join("").replace(['[', ']', ',', ' '], "")),
        format!("empty tree, {n} operations, each from {}, every key a fresh symbolic value", shape.join(" then ")),
        move || {
            let mut s = Sys::<K, V, C>::new();
            for ops in &steps {
                any_op(&mut s, ops);
            }
            s.check_all();
            s.finish();
        },
    );
}
fn rep(ops: &[Op], n: usize) -> Vec<Vec<Op>> {
    vec![ops.to_vec(); n]
}

/// A fresh key somewhere among the 2 * w entries around position i.
fn near(m: &Model, i: usize, w: usize) -> Term {
    let k = fresh();
    if i > w {
        eng().assume_lt(m[i - w - 1].0, k);
    }
    if i + w < m.len() {
        eng().assume_lt(k, m[i + w].0);
    }
    k
}

/// A prestate family followed by chosen operations on fresh symbolic keys.
fn pre<K: KeyT, V: ValT, C: TreeConfig<K, V> + 'static>(o: &mut Out, tag: &str, b: Build, n: usize, t: Thin, steps: Vec<Vec<Op>>) {
    let shape: Vec<String> = steps.iter().map(|s| format!("{s:?}")).collect();
    o.add(
        format!("{tag}/{b:?}{n}-{t:?}-{}", shape.join("").replace(['[', ']', ',', ' '], "")),
        format!("{n} symbolic ascending keys built by {b:?}, thinned by {t:?}, then {}", shape.join(" then ")),
        move || {
            let mut s = prestate::<K, V, C>(b, n, t);
            for ops in &steps {
                any_op(&mut s, ops);
            }
            s.check_all();
            s.finish();
        },
    );
}

/// Like `pre` for a chosen number of keys up to n.
fn pre_upto<K: KeyT, V: ValT, C: TreeConfig<K, V> + 'static>(o: &mut Out, tag: &str, b: Build, n: usize, t: Thin, steps: Vec<Vec<Op>>) {
    let shape: Vec<String> = steps.iter().map(|s| format!("{s:?}")).collect();
    o.add(
        format!("{tag}/{b:?}upto{n}-{t:?}-{}", shape.join("").replace(['[', ']', ',', ' '], "")),
        format!("0..={n} symbolic ascending keys built by {b:?}, thinned by {t:?}, then {}", shape.join(" then ")),
        move || {
            let n = choose(n + 1);
            let mut s = prestate::<K, V, C>(b, n, t);
            for ops in &steps {
                any_op(&mut s, ops);
            }
            s.check_all();
            s.finish();
        },
    );
}

/// What a `deep` scenario does after the tree is carved.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Deep {
    Write,
    WriteRec,
    Read,
    Remove,
    Entry,
    Range,
    RangeMut,
    Mutate,
    Iter,
    IterMut,
    Consume,
    Clone,
}
/// Remove a block of keys that lies on the node boundaries of some level of a loaded tree, or
/// everything but such a block; returns the positions worth looking at.
fn carve<K: KeyT, V: ValT, C: TreeConfig<K, V> + 'static>(s: &mut Sys<K, V, C>) -> Vec<usize> {
    let (b, l) = (branch_size::<K, V, C>(), leaf_size::<K, V, C>());
    let n = s.len();
    let mut spans = vec![l];
    while spans[spans.len() - 1] * b < n {
        spans.push(spans[spans.len() - 1] * b);
    }
    let keys: Vec<Term> = s.model.iter().map(|e| e.0).collect();
    let mut at = vec![0, n];
    match choose(3) {
        0 => at.extend(spans.iter().copied()),
        how => {
            let p = spans[choose(spans.len())];
            let blocks = n.div_ceil(p);
            let i = [0, 1, blocks / 2, blocks - 1][choose(4)];
            let (x, y) = ((i * p).min(n), ((i + 1) * p).min(n));
            let up = choose(2) == 0;
            for i in 0..n {
                let i = if up { i } else { n - 1 - i };
                if (i >= x && i < y) == (how == 1) {
                    s.remove(keys[i]);
                }
            }
            at.push(if how == 1 { x } else { 0 });
        }
    }
    let n = s.len();
    at.retain(|&x| x <= n);
    at.push(n);
    at.sort();
    at.dedup();
    at
}
/// Trees of many levels (up to the tallest the tests never build with small nodes).
fn deep<K: KeyT, V: ValT, C: TreeConfig<K, V> + 'static>(o: &mut Out, tag: &str, b: Build, n: usize, d: Deep) {
    o.add(
        format!("{tag}/{b:?}{n}-deep-{d:?}"),
        format!("{n} keys built by {b:?}; a chosen block on node boundaries of a chosen level removed, or all but it, in either order, or nothing; then {d:?} with a symbolic key within 2 entries of a chosen boundary; contents checked in full"),
        move || {
            let mut s = prestate::<K, V, C>(b, n, Thin::None);
            let at = carve(&mut s);
            s.check_iter();
            let w = [Walk::Front, Walk::Back, Walk::Alt];
            match d {
                Deep::Iter => {
                    s.walk(Bd::Un, Bd::Un, w[choose(3)], true);
                    return s.finish();
                }
                Deep::IterMut => {
                    s.walk_mut(Bd::Un, Bd::Un, w[choose(3)], true);
                    s.check_iter();
                    return s.finish();
                }
                Deep::Consume => {
                    consume(s, w[choose(3)], false);
                    return check_clean();
                }
                Deep::Clone => {
                    let mut c = s.fork();
                    let k = near(&s.model, at[choose(at.len())], 1);
                    match choose(3) {
                        0 => c.insert(k),
                        1 => c.remove(k),
                        _ => c.get_mut(k),
                    }
                    c.check_iter();
                    s.check_iter();
                    return s.finish2(c);
                }
                _ => {}
            }
            let k = near(&s.model, at[choose(at.len())], 2);
            match d {
                Deep::Write => match choose(2) {
                    0 => s.insert(k),
                    _ => s.remove(k),
                },
                Deep::WriteRec => match choose(3) {
                    0 => s.insert_with(k, true),
                    1 => s.get_linear(k),
                    _ => s.insert_with(k, false),
                },
                Deep::Read => match choose(3) {
                    0 => s.get(k),
                    1 => s.get_mut(k),
                    _ => s.index(k),
                },
                Deep::Remove => {
                    match choose(3) {
                        0 => s.remove(k),
                        1 => s.remove_low(),
                        _ => s.remove_high(),
                    }
                    s.insert(k);
                }
                Deep::Entry => s.entry(k, 7),
                Deep::Range | Deep::RangeMut => {
                    let x = if choose(2) == 0 { Bd::In(k) } else { Bd::Ex(k) };
                    let (lo, hi) = if choose(2) == 0 { (x, Bd::Un) } else { (Bd::Un, x) };
                    let w = if choose(2) == 0 { Walk::Front } else { Walk::Back };
                    if d == Deep::Range {
                        s.walk(lo, hi, w, false)
                    } else {
                        s.walk_mut(lo, hi, w, false)
                    }
                }
                Deep::Mutate => match choose(2) {
                    0 => s.get_mut(k),
                    _ => s.entry(k, 3),
                },
                _ => {}
            }
            s.check_all();
            s.finish();
        },
    );
}

type U4 = C44<Unique>;
type S4 = C44<Shared>;
type A4 = C44<SyncShared>;

// ---- P01 ----------------------------------------------------------------------------------

/// As many levels as fit into memory.
fn height(o: &mut Out, b: Build, what: &str, f: fn(&mut Sys<SKey, SVal, U4>, Term, bool)) {
    let n = o.q(600_000, 1_300_000);
    o.add(format!("n4/{b:?}{n}-height"), format!("{n} ascending insertions ({b:?}) into four-entry nodes (one level more for each doubling), then near a symbolic key at either end: {what}"), move || {
        let mut s = prestate::<SKey, SVal, U4>(b, n, Thin::None);
        let low = choose(2) == 0;
        let k = near(&s.model, if low { 0 } else { n }, 1);
        f(&mut s, k, low);
        s.finish();
    });
}
fn p01(o: &mut Out) {
    type T = U4;
    let all = [Ins, Rem, Get, GetMut, Index];
    hist::<SKey, SVal, T>(o, "n4", rep(&[Ins], o.q(6, 7)));
    hist::<SKey, SVal, T>(o, "n4", rep(&[Ins, Rem, Get, GetMut], o.q(4, 5)));
    hist::<SKey, SVal, T>(o, "n4", rep(&[Ins, Rem], o.q(5, 6)));
    hist::<SKey, SVal, C55<Unique>>(o, "n5", rep(&[Ins], o.q(6, 7)));
    for (b, n) in [(Build::Load, 18), (Build::Asc, 14), (Build::Desc, 14), (Build::Zig, 15), (Build::Mid, 15)] {
        pre::<SKey, SVal, T>(o, "n4", b, n, Thin::Gap, vec![all.to_vec()]);
        pre::<SKey, SVal, T>(o, "n4", b, o.q(n.min(10), n), Thin::GapUp, vec![vec![Ins, Rem], vec![Ins]]);
    }
    for (b, n) in [(Build::Load, 68), (Build::Asc, 44), (Build::Desc, 44), (Build::Zig, 40)] {
        pre::<SKey, SVal, T>(o, "n4-tall", b, n, Thin::None, vec![all.to_vec(), vec![Ins, Rem]][..o.q(1, 2)].to_vec());
        pre::<SKey, SVal, T>(o, "n4-tall", b, n, o.keep(), vec![all.to_vec()]);
    }
    pre::<SKey, SVal, T>(o, "n4-tall", Build::Load, o.q(32, 64), Thin::None, vec![vec![Ins], vec![Ins, Rem]]);
    pre::<SKey, SVal, T>(o, "n4", Build::Load, o.q(7, 12), Thin::Mask, vec![vec![Ins], vec![Ins, Rem]]);
    pre::<SKey, SVal, T>(o, "n4", Build::Load, 20, Thin::Refill, vec![vec![Ins, Get]]);
    pre::<SKey, SVal, T>(o, "n4", Build::Asc, 13, Thin::Refill, vec![vec![Ins, Get]]);
    pre_upto::<SKey, SVal, T>(o, "n4", Build::Load, o.q(70, 130), Thin::None, vec![all.to_vec()]);
    pre_upto::<SKey, SVal, T>(o, "n4", Build::Load, o.q(20, 70), Thin::All, vec![vec![Ins], all.to_vec()]);
    for (b, n) in [(Build::Load, 16), (Build::Load, 18), (Build::Asc, 12), (Build::Desc, 12)] {
        pre::<SKey, SVal, T>(o, "n4", b, n, Thin::Notch(1, if n == 18 { o.q(1, 2) } else { 2 }), vec![vec![Ins, Rem], vec![Ins, Get]][..if n == 16 { o.q(1, 2) } else { 2 }].to_vec());
        pre::<SKey, SVal, T>(o, "n4", b, n, Thin::Notch(3, 3), vec![all.to_vec()]);
    }
    pre::<SKey, SVal, T>(o, "n4-tall", Build::Load, 64, Thin::Notch(o.q(1, 3), o.q(1, 3)), vec![vec![Ins, Rem, Get]]);
    pre::<SKey, SVal, T>(o, "n4-tall", Build::Asc, 42, Thin::Notch(o.q(1, 3), o.q(1, 3)), vec![vec![Ins, Rem, Get]]);
    type D = Tree64<Unique>;
    for (b, n) in [(Build::Load, 64), (Build::Load, 65), (Build::Asc, 66), (Build::Desc, 130), (Build::Load, 200)] {
        pre::<SKey, SVal, D>(o, "tree64", b, n, Thin::None, vec![all.to_vec()]);
    }
    pre::<SKey, SVal, D>(o, "tree64", Build::Load, 4097, Thin::None, vec![if o.thorough { vec![Ins, Rem] } else { vec![Ins] }]);
    if o.thorough {
        pre::<SKey, SVal, D>(o, "tree64", Build::Load, 4096, Thin::None, vec![vec![Ins, Rem], vec![Get]]);
        pre::<SKey, SVal, T>(o, "n4", Build::Load, 18, Thin::TwoGaps, vec![all.to_vec()]);
        pre::<SKey, SVal, T>(o, "n4", Build::Asc, 14, Thin::TwoGaps, vec![all.to_vec()]);
        pre::<SKey, SVal, T>(o, "n4", Build::Load, 12, Thin::Gap, rep(&[Ins, Rem], 3));
    }
    for (b, n) in [(Build::Load, 259), (Build::Load, o.q(4097, 16385)), (Build::Asc, o.q(700, 2800)), (Build::Desc, o.q(700, 2800))] {
        deep::<SKey, SVal, T>(o, "n4", b, n, Deep::Write);
        deep::<SKey, SVal, T>(o, "n4", b, n, Deep::Read);
    }
    deep::<SKey, SVal, Tree64<Unique>>(o, "tree64", Build::Load, o.q(4097, 8193), Deep::Write);
    deep::<SKey, SVal, Tree64<Unique>>(o, "tree64", Build::Asc, o.q(2200, 8193), Deep::Write);
    height(o, Build::Asc, "insertion, removal or lookup", |s, k, _| match choose(3) {
        0 => s.insert(k),
        1 => s.remove(k),
        _ => s.get(k),
    });
    deep::<SKey, SVal, Tree64<Unique>>(o, "tree64", Build::Asc, o.q(2200, 8193), Deep::Read);
    deep::<SKey, SVal, Tree64<Unique>>(o, "tree64", Build::Desc, 2200, Deep::Write);
}


// ---- P02 ----------------------------------------------------------------------------------

/// Remove symbolic keys, put the same keys back, look at ranges around them.
fn rem_back<K: KeyT, V: ValT, C: TreeConfig<K, V> + 'static>(o: &mut Out, tag: &str, b: Build, n: usize, t: Thin, range: bool) {
    o.add(
        format!("{tag}/{b:?}{n}-{t:?}-rem-back{}", if range { "-range" } else { "" }),
        format!("{n} symbolic keys built by {b:?}, thinned by {t:?}; remove a key (symbolic, lowest or highest), check everything, then insert it again, or range from it to another symbolic key"),
        move || {
            let mut s = prestate::<K, V, C>(b, n, t);
            let k = match choose(3) {
                0 => fresh(),
                1 => s.model.first().map(|e| e.0).unwrap_or_else(fresh),
                _ => s.model.last().map(|e| e.0).unwrap_or_else(fresh),
            };
            match choose(2) {
                0 => s.remove(k),
                _ => {
                    s.remove_low();
                    s.remove_high();
                }
            }
            s.check_all();
            if range {
                s.walk(Bd::In(k), Bd::Un, Walk::Front, false);
                s.walk(Bd::Un, Bd::Ex(k), Walk::Back, false);
                s.walk(Bd::Ex(k), Bd::In(fresh()), Walk::Front, false);
            } else {
                s.insert(k);
                s.check_all();
            }
            s.finish();
        },
    );
}
/// Remove every entry in any order.
fn rem_all<K: KeyT, V: ValT, C: TreeConfig<K, V> + 'static>(o: &mut Out, tag: &str, b: Build, n: usize, free: usize) {
    o.add(
        format!("{tag}/{b:?}{n}-empty-out-{free}"),
        format!("{n} symbolic keys built by {b:?}; remove all of them, the first {free} in every order (of keys, lowest and highest), the rest from a chosen end; then insert a symbolic key"),
        move || {
            let mut s = prestate::<K, V, C>(b, n, Thin::None);
            let mut i = 0;
            let mut low = true;
            while s.len() > 0 {
                if i < free {
                    let c = choose(s.len());
                    let k = s.model[c].0;
                    s.remove(k);
                } else {
                    if i == free {
                        low = choose(2) == 0;
                    }
                    if low {
                        s.remove_low()
                    } else {
                        s.remove_high()
                    }
                }
                s.check_iter();
                i += 1;
            }
            s.remove_low();
            s.remove_high();
            s.remove(fresh());
            s.insert(fresh());
            s.insert(fresh());
            s.check_all();
            s.finish();
        },
    );
}
fn p02(o: &mut Out) {
    type T = U4;
    for (b, n) in [(Build::Load, 18), (Build::Asc, 14), (Build::Desc, 14), (Build::Zig, 14), (Build::Mid, 15)] {
        rem_back::<SKey, SVal, T>(o, "n4", b, n, Thin::GapUp, false);
        rem_back::<SKey, SVal, T>(o, "n4", b, n.min(o.q(8, 18)), Thin::GapUp, true);
    }
    rem_back::<SKey, SVal, T>(o, "n4", Build::Load, 68, o.keep(), false);
    rem_back::<SKey, SVal, T>(o, "n4", Build::Load, o.q(30, 68), o.keep(), true);
    rem_back::<SKey, SVal, T>(o, "n4", Build::Asc, 40, Thin::Ends, false);
    rem_back::<SKey, SVal, T>(o, "n4", Build::Load, o.q(9, 12), Thin::Mask, false);
    rem_back::<SKey, SVal, C55<Unique>>(o, "n5", Build::Load, 27, Thin::GapUp, false);
    for (b, n) in [(Build::Load, 18), (Build::Asc, 12), (Build::Desc, 12)] {
        rem_back::<SKey, SVal, T>(o, "n4", b, n, Thin::Notch(3, 2), false);
        rem_back::<SKey, SVal, T>(o, "n4", b, o.q(n - 4, n), Thin::Notch(1, 2), true);
    }
    rem_back::<SKey, SVal, T>(o, "n4", Build::Load, o.q(36, 64), Thin::Notch(1, 1), false);
    rem_back::<SKey, SVal, Tree64<Unique>>(o, "tree64", Build::Load, o.q(65, 129), Thin::None, true);
    rem_all::<SKey, SVal, T>(o, "n4", Build::Load, 6, 6);
    rem_all::<SKey, SVal, T>(o, "n4", Build::Asc, 7, o.q(5, 7));
    rem_all::<SKey, SVal, T>(o, "n4", Build::Load, 18, o.q(3, 4));
    rem_all::<SKey, SVal, T>(o, "n4", Build::Desc, 20, o.q(3, 4));
    rem_all::<SKey, SVal, T>(o, "n4", Build::Load, 66, o.q(1, 2));
    pre::<SKey, SVal, T>(o, "n4", Build::Load, o.q(18, 20), Thin::Ends, vec![vec![Rem, RemLow, RemHigh], vec![Ins]]);
    pre::<SKey, SVal, T>(o, "n4", Build::Asc, o.q(8, 14), Thin::Ends, vec![vec![Rem, RemLow, RemHigh], vec![Range]]);
    hist::<SKey, SVal, T>(o, "n4", rep(&[Ins, Rem, RemLow, RemHigh], o.q(4, 5)));
    hist::<SKey, SVal, T>(
        o,
        "n4",
        vec![vec![Ins], vec![Ins], vec![Ins], vec![Ins, RemLow], vec![Rem, RemLow, RemHigh], vec![Rem, RemHigh], vec![Ins]][..o.q(6, 7)].to_vec(),
    );
    for (b, n) in [(Build::Load, 260), (Build::Load, o.q(4097, 16385)), (Build::Asc, o.q(700, 2800)), (Build::Desc, o.q(700, 2800))] {
        deep::<SKey, SVal, T>(o, "n4", b, n, Deep::Remove);
    }
    deep::<SKey, SVal, Tree64<Unique>>(o, "tree64", Build::Load, o.q(4097, 8193), Deep::Remove);
    deep::<SKey, SVal, Tree64<Unique>>(o, "tree64", Build::Desc, 2200, Deep::Remove);
    height(o, Build::Asc, "removal of it, or of an end", |s, k, _| match choose(3) {
        0 => s.remove(k),
        1 => s.remove_low(),
        _ => s.remove_high(),
    });
}

// ---- P03 ----------------------------------------------------------------------------------

fn p03(o: &mut Out) {
    type T = U4;
    hist::<SKey, SVal, T>(o, "n4", rep(&[Entry], o.q(3, 4)));
    hist::<SKey, SVal, T>(o, "n4", [rep(&[Ins], o.q(3, 4)), rep(&[Entry], 2)].concat());
    for (b, n) in [(Build::Load, 18), (Build::Asc, 14), (Build::Desc, 14), (Build::Zig, 14), (Build::Mid, 15)] {
        pre::<SKey, SVal, T>(o, "n4", b, n, Thin::GapUp, vec![vec![Entry]]);
        pre::<SKey, SVal, T>(o, "n4", b, o.q(n - 8, n), Thin::GapUp, vec![vec![EntryShort], vec![EntryShort]]);
    }
    for (b, n) in [(Build::Load, 16), (Build::Load, 18), (Build::Asc, 12), (Build::Desc, 12)] {
        pre::<SKey, SVal, T>(o, "n4", b, n, Thin::Notch(3, 2), vec![vec![Entry]]);
        pre::<SKey, SVal, T>(o, "n4", b, o.q(n.min(13), n), Thin::Notch(1, 1), vec![vec![EntryShort], vec![EntryShort]][..if n == 16 { o.q(1, 2) } else { 2 }].to_vec());
    }
    pre::<SKey, SVal, T>(o, "n4-tall", Build::Load, 64, Thin::Notch(o.q(1, 2), o.q(1, 2)), vec![vec![EntryShort]]);
    // full nodes on every level
    for (b, n) in [(Build::Load, 16), (Build::Load, 64), (Build::Load, 65), (Build::Load, 128), (Build::Asc, 47), (Build::Desc, 46)] {
        let two = vec![vec![Entry], vec![EntryShort]];
        pre::<SKey, SVal, T>(o, "n4-tall", b, n, Thin::None, two[..if n < 20 { 2 } else { o.q(1, 2) }].to_vec());
    }
    pre::<SKey, SVal, T>(o, "n4", Build::Load, 68, o.keep(), vec![vec![Entry]]);
    pre::<SKey, SVal, T>(o, "n4", Build::Load, 20, Thin::All, vec![vec![Entry], vec![Entry]]);
    pre::<SKey, SVal, T>(o, "n4", Build::Load, o.q(8, 12), Thin::Mask, vec![vec![Entry]]);
    pre::<SKey, SVal, C55<Unique>>(o, "n5", Build::Load, o.q(18, 26), Thin::GapUp, vec![vec![Entry]]);
    pre::<SKey, SVal, C55<Shared>>(o, "n5-rc", Build::Load, 25, Thin::None, vec![vec![Entry], vec![Entry]][..o.q(1, 2)].to_vec());
    pre::<SKey, SVal, A4>(o, "n4-arc", Build::Asc, 13, Thin::None, vec![vec![Entry], vec![Entry]]);
    pre::<SKey, SVal, Tree64<Unique>>(o, "tree64", Build::Load, 64, Thin::None, vec![vec![Entry], vec![EntryShort]][..o.q(1, 2)].to_vec());
    pre::<SKey, SVal, Tree64<Unique>>(o, "tree64", Build::Load, 4096, Thin::None, vec![vec![EntryShort]]);
    for (b, n) in [(Build::Load, 256), (Build::Load, o.q(4096, 16384)), (Build::Asc, o.q(700, 2800)), (Build::Desc, o.q(700, 2800))] {
        deep::<SKey, SVal, T>(o, "n4", b, n, Deep::Entry);
    }
    deep::<SKey, SVal, Tree64<Unique>>(o, "tree64", Build::Asc, o.q(2200, 4097), Deep::Entry);
    height(o, Build::Asc, "an entry", |s, k, _| s.entry(k, 2));
}

// ---- P04 / P05 ----------------------------------------------------------------------------

fn iter_sc<K: KeyT, V: ValT, C: TreeConfig<K, V> + 'static>(o: &mut Out, tag: &str, b: Build, n: usize, t: Thin, w: Walk, how: u8) {
    let what = ["shared", "mutable", "copied"][how as usize];
    o.add(
        format!("{tag}/{b:?}upto{n}-{t:?}-iter-{what}-{w:?}"),
        format!("up to {n} symbolic keys built by {b:?}, thinned by {t:?}; full iteration ({what}), ends taken by {w:?}"),
        move || {
            let n = choose(n + 1);
            let mut s = prestate::<K, V, C>(b, n, t);
            match how {
                0 => s.walk(Bd::Un, Bd::Un, w, true),
                1 => {
                    s.walk_mut(Bd::Un, Bd::Un, w, true);
                    s.check_all();
                }
                _ => s.walk_cloned(Bd::Un, Bd::Un),
            }
            s.finish();
        },
    );
}
/// The standard iterator methods (nth, last, count, fold, collect, ...) at any point of a walk.
fn methods_sc<K: KeyT, V: ValT, C: TreeConfig<K, V> + 'static>(o: &mut Out, tag: &str, b: Build, n: usize, t: Thin, how: u8, ends: Option<Ends>) {
    let what = ["shared", "mutable", "owned"][how as usize];
    let range = ends.is_some();
    o.add(
        format!("{tag}/{b:?}{n}-{t:?}-{}methods-{what}", ends.map_or(String::new(), |e| format!("range{e:?}-"))),
        format!("{n} symbolic keys built by {b:?}, thinned by {t:?}; {} ({what}); some steps from either end, then each of 16 standard iterator methods", match ends {
            None => "full iteration",
            Some(Ends::One) => "range with one symbolic bound",
            Some(Ends::Any) => "range with symbolic bounds of all kinds",
        }),
        move || {
            let mut s = prestate::<K, V, C>(b, n, t);
            let (mut x, mut y) = (Bd::Un, Bd::Un);
            if ends == Some(Ends::Any) {
                (x, y) = (any_bound(), any_bound());
            } else if range {
                x = if choose(2) == 0 { Bd::In(fresh()) } else { Bd::Ex(fresh()) };
                if choose(2) == 0 {
                    (x, y) = (y, x);
                }
            }
            match how {
                0 => s.adapt(x, y, !range),
                1 => {
                    s.adapt_mut(x, y, !range);
                    s.check_iter();
                }
                _ => {
                    let Sys { tree, model } = s;
                    rest(call(|| tree.into_iter()), &model, |(k, v)| (k.term(), v.term()), "consuming iterator");
                    return check_clean();
                }
            }
            s.finish();
        },
    );
}
fn p04(o: &mut Out) {
    type T = U4;
    for how in 0..2 {
        for n in [0, 1, 6, 9, 18, 70] {
            methods_sc::<SKey, SVal, T>(o, "n4", Build::Load, n, Thin::None, how, None);
        }
        methods_sc::<SKey, SVal, T>(o, "n4", Build::Asc, o.q(11, 16), Thin::GapUp, how, None);
        methods_sc::<SKey, SVal, T>(o, "n4", Build::Load, o.q(9, 14), Thin::GapUp, how, None);
        methods_sc::<SKey, SVal, T>(o, "n4", Build::Load, 10, Thin::All, how, None);
        methods_sc::<SKey, SVal, T>(o, "n4", Build::Load, o.q(260, 1040), Thin::None, how, None);
        methods_sc::<SKey, SVal, Tree64<Unique>>(o, "tree64", Build::Load, 140, Thin::None, how, None);
    }
    for how in 0..2 {
        iter_sc::<SKey, SVal, T>(o, "n4", Build::Load, o.q(10, 13), Thin::None, Walk::Any, how);
        iter_sc::<SKey, SVal, T>(o, "n4", Build::Asc, o.q(9, 11), Thin::None, Walk::Any, how);
        iter_sc::<SKey, SVal, T>(o, "n4", Build::Load, o.q(7, 8), Thin::Mask, Walk::Any, how);
        iter_sc::<SKey, SVal, T>(o, "n4", Build::Load, o.q(34, 70), Thin::None, Walk::Turn, how);
        iter_sc::<SKey, SVal, T>(o, "n4", Build::Asc, o.q(14, 20), Thin::GapUp, Walk::Turn, how);
        iter_sc::<SKey, SVal, T>(o, "n4", Build::Load, o.q(18, 22), Thin::GapUp, Walk::Turn, how);
        iter_sc::<SKey, SVal, T>(o, "n4", Build::Desc, o.q(20, 30), Thin::Gap, Walk::Alt, how);
        iter_sc::<SKey, SVal, T>(o, "n4", Build::Load, 68, o.keep(), Walk::Alt, how);
        iter_sc::<SKey, SVal, T>(o, "n4", Build::Load, 70, Thin::All, Walk::Alt, how);
        iter_sc::<SKey, SVal, T>(o, "n4", Build::Asc, o.q(20, 30), Thin::Ends, Walk::Alt, how);
        iter_sc::<SKey, SVal, C55<Unique>>(o, "n5", Build::Asc, 30, Thin::GapUp, Walk::Front, how);
        iter_sc::<SKey, SVal, C55<Unique>>(o, "n5", Build::Load, 30, Thin::GapUp, Walk::Back, how);
        iter_sc::<SKey, SVal, Tree64<Unique>>(o, "tree64", Build::Load, 132, Thin::None, Walk::Alt, how);
        iter_sc::<SKey, SVal, S4>(o, "n4-rc", Build::Load, 8, Thin::None, Walk::Any, how);
        iter_sc::<SKey, SVal, A4>(o, "n4-arc", Build::Load, 8, Thin::None, Walk::Any, how);
    }
    iter_sc::<SKey, SVal, T>(o, "n4", Build::Load, o.q(18, 24), Thin::None, Walk::Any, 2);
    for (b, n) in [(Build::Load, 34), (Build::Load, 68), (Build::Load, o.q(70, 132)), (Build::Asc, 44)] {
        o.add(format!("n4-tall/{b:?}{n}-iter-copied"), format!("{n} symbolic keys built by {b:?}, four levels; a clone taken at every point of a forward, backward or alternating walk"), move || {
            let s = prestate::<SKey, SVal, U4>(b, n, Thin::None);
            s.walk_cloned_at(choose(n + 1), choose(3));
            s.finish();
        });
    }
    iter_sc::<SKey, SVal, T>(o, "n4", Build::Asc, o.q(10, 14), Thin::GapUp, Walk::Any, 2);
    hist_iter::<SKey, SVal, T>(o, "n4", o.q(4, 5));
    for (b, n) in [(Build::Load, 260), (Build::Load, o.q(4097, 16385)), (Build::Asc, o.q(700, 2800)), (Build::Desc, o.q(700, 2800))] {
        deep::<SKey, SVal, T>(o, "n4", b, n, Deep::Iter);
        deep::<SKey, SVal, T>(o, "n4", b, n, Deep::IterMut);
    }
    deep::<SKey, SVal, T>(o, "n4", Build::Load, o.q(16385, 65537), Deep::Iter);
    deep::<SKey, SVal, T>(o, "n4", Build::Load, o.q(16385, 65537), Deep::IterMut);
    deep::<SKey, SVal, Tree64<Unique>>(o, "tree64", Build::Load, 4160, Deep::Iter);
    deep::<SKey, SVal, Tree64<Unique>>(o, "tree64", Build::Load, 4160, Deep::IterMut);
    deep::<SKey, SVal, Tree64<Unique>>(o, "tree64", Build::Asc, 2200, Deep::Iter);
}
fn hist_iter<K: KeyT, V: ValT, C: TreeConfig<K, V> + 'static>(o: &mut Out, tag: &str, n: usize) {
    hist::<K, V, C>(o, tag, [rep(&[Ins, Rem], n), vec![vec![IterMut, IterAlt]]].concat());
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Ends {
    /// both bounds symbolic, all kinds
    Any,
    /// one symbolic bound, other end open
    One,
}
fn range_sc<K: KeyT, V: ValT, C: TreeConfig<K, V> + 'static>(o: &mut Out, tag: &str, b: Build, n: usize, t: Thin, e: Ends, w: Walk, how: u8) {
    let what = ["shared", "mutable", "copied"][how as usize];
    let sc = o.add(
        format!("{tag}/{b:?}{n}-{t:?}-range{e:?}-{what}-{w:?}"),
        format!("{n} symbolic keys built by {b:?}, thinned by {t:?}; range with {e:?} symbolic included/excluded/open bounds ({what}), ends taken by {w:?}"),
        move || {
            let mut s = prestate::<K, V, C>(b, n, t);
            let (x, y) = match e {
                Ends::Any => (any_bound(), any_bound()),
                Ends::One => {
                    let k = if choose(2) == 0 { Bd::In(fresh()) } else { Bd::Ex(fresh()) };
                    if choose(2) == 0 {
                        (k, Bd::Un)
                    } else {
                        (Bd::Un, k)
                    }
                }
            };
            match how {
                0 => s.walk(x, y, w, false),
                1 => {
                    s.walk_mut(x, y, w, false);
                    s.check_iter();
                }
                _ => s.walk_cloned(x, y),
            }
            s.finish();
        },
    );
    if e == Ends::Any && how < 2 {
        sc.labels.push("rejected");
    }
}
fn p05(o: &mut Out) {
    type T = U4;
    let th = o.thorough;
    for how in 0..2 {
        for w in [Walk::Front, Walk::Back] {
            range_sc::<SKey, SVal, T>(o, "n4", Build::Load, if th { 20 } else { 18 }, Thin::None, Ends::Any, w, how);
            range_sc::<SKey, SVal, T>(o, "n4", Build::Asc, if th { 20 } else { 13 }, Thin::None, Ends::Any, w, how);
            range_sc::<SKey, SVal, T>(o, "n4", Build::Load, if th { 20 } else { 18 }, Thin::GapUp, Ends::One, w, how);
            range_sc::<SKey, SVal, T>(o, "n4", Build::Asc, if th { 18 } else { 14 }, Thin::GapUp, Ends::One, w, how);
            range_sc::<SKey, SVal, T>(o, "n4", Build::Desc, if th { 18 } else { 14 }, Thin::GapUp, Ends::One, w, how);
            range_sc::<SKey, SVal, T>(o, "n4", Build::Zig, if th { 18 } else { 14 }, Thin::Refill, Ends::One, w, how);
            range_sc::<SKey, SVal, T>(o, "n4", Build::Load, 68, o.keep(), Ends::One, w, how);
            range_sc::<SKey, SVal, T>(o, "n4", Build::Load, 18, Thin::Notch(3, 2), Ends::One, w, how);
            range_sc::<SKey, SVal, T>(o, "n4", Build::Asc, 13, Thin::Notch(3, 2), Ends::One, w, how);
            range_sc::<SKey, SVal, T>(o, "n4", Build::Load, 10, Thin::Notch(1, 1), Ends::Any, w, how);
            range_sc::<SKey, SVal, T>(o, "n4", Build::Load, if th { 64 } else { 36 }, Thin::Notch(1, 1), Ends::One, w, how);
        }
        range_sc::<SKey, SVal, T>(o, "n4", Build::Load, if th { 7 } else { 5 }, Thin::None, Ends::Any, Walk::Any, how);
        range_sc::<SKey, SVal, T>(o, "n4", Build::Load, if th { 10 } else { 8 }, Thin::GapUp, Ends::Any, Walk::Alt, how);
        range_sc::<SKey, SVal, T>(o, "n4", Build::Asc, if th { 10 } else { 8 }, Thin::GapUp, Ends::Any, Walk::Alt, how);
        range_sc::<SKey, SVal, T>(o, "n4", Build::Load, if th { 10 } else { 8 }, Thin::Mask, Ends::One, Walk::Alt, how);
        range_sc::<SKey, SVal, T>(o, "n4", Build::Load, 18, Thin::All, Ends::Any, Walk::Alt, how);
        range_sc::<SKey, SVal, T>(o, "n4", Build::Load, if th { 66 } else { 34 }, Thin::None, Ends::One, Walk::Turn, how);
        range_sc::<SKey, SVal, C55<Unique>>(o, "n5", Build::Load, 26, Thin::GapUp, Ends::One, Walk::Front, how);
        range_sc::<SKey, SVal, C55<Unique>>(o, "n5", Build::Asc, 20, Thin::None, Ends::Any, Walk::Front, how);
        range_sc::<SKey, SVal, Tree64<Unique>>(o, "tree64", Build::Load, 66, Thin::None, Ends::One, Walk::Front, how);
        range_sc::<SKey, SVal, Tree64<Unique>>(o, "tree64", Build::Load, 130, Thin::None, Ends::One, Walk::Back, how);
        range_sc::<SKey, SVal, S4>(o, "n4-rc", Build::Load, 9, Thin::None, Ends::Any, Walk::Alt, how);
        range_sc::<SKey, SVal, A4>(o, "n4-arc", Build::Load, 9, Thin::None, Ends::Any, Walk::Alt, how);
    }
    range_sc::<SKey, SVal, T>(o, "n4", Build::Load, 6, Thin::None, Ends::Any, Walk::Any, 2);
    for how in 0..2 {
        methods_sc::<SKey, SVal, T>(o, "n4", Build::Load, o.q(9, 18), Thin::None, how, Some(Ends::One));
        methods_sc::<SKey, SVal, T>(o, "n4", Build::Asc, o.q(5, 7), Thin::GapUp, how, Some(Ends::One));
        methods_sc::<SKey, SVal, T>(o, "n4", Build::Load, o.q(5, 7), Thin::None, how, Some(Ends::Any));
    }
    o.add("n4/empty-range", "tree never inserted into, any bounds, shared and mutable", || {
        let mut s = Sys::<SKey, SVal, U4>::new();
        let (x, y) = (any_bound(), any_bound());
        if choose(2) == 0 {
            s.walk(x, y, Walk::Alt, false)
        } else {
            s.walk_mut(x, y, Walk::Alt, false)
        }
        s.finish();
    });
    // all the standard range types
    o.add("n4/range-types", "12 symbolic keys; a..b, a.., ..b, a..=b, ..=b, .. as real range expressions", || {
        let s = prestate::<SKey, SVal, U4>(Build::Load, 12, Thin::None);
        let (a, b) = (fresh(), fresh());
        let t = &s.tree;
        let c = choose(6);
        let (x, y) = match c {
            0 => (Bd::In(a), Bd::Ex(b)),
            1 => (Bd::In(a), Bd::Un),
            2 => (Bd::Un, Bd::Ex(b)),
            3 => (Bd::In(a), Bd::In(b)),
            4 => (Bd::Un, Bd::In(b)),
            _ => (Bd::Un, Bd::Un),
        };
        let bad = bad_range(x, y);
        let r = catch(|| {
            call(|| {
                let (ka, kb) = (SKey::mk(a), SKey::mk(b));
                let it = match c {
                    0 => t.range(ka..kb),
                    1 => t.range(ka..),
                    2 => t.range(..kb),
                    3 => t.range(ka..=kb),
                    4 => t.range(..=kb),
                    _ => t.range(..),
                };
                let _g = crate::alloc::Set::to(false);
                it.map(|(k, _)| k.term()).collect::<Vec<_>>()
            })
        });
        trace!("range {} {} -> {:?}", x.show(), y.show(), r);
        match r {
            Err(_) => check!(bad, "range panicked on valid bounds"),
            Ok(got) => {
                check!(!bad, "range accepted bounds it has to reject");
                let (lo, hi) = window(&s.model, x, y);
                let want: Vec<Term> = s.model[lo..hi].iter().map(|e| e.0).collect();
                check!(got == want, "range yielded {:?}, expected {:?}", got, want);
            }
        }
        s.finish();
    });
    for (b, n) in [(Build::Load, 260), (Build::Load, o.q(1025, 4097)), (Build::Asc, o.q(700, 2800)), (Build::Desc, o.q(700, 2800))] {
        deep::<SKey, SVal, T>(o, "n4", b, n, Deep::Range);
        deep::<SKey, SVal, T>(o, "n4", b, n, Deep::RangeMut);
    }
    deep::<SKey, SVal, Tree64<Unique>>(o, "tree64", Build::Load, o.q(160, 4160), Deep::Range);
    deep::<SKey, SVal, Tree64<Unique>>(o, "tree64", Build::Load, o.q(160, 4160), Deep::RangeMut);
    deep::<SKey, SVal, Tree64<Unique>>(o, "tree64", Build::Asc, o.q(160, 2200), Deep::Range);
    height(o, Build::Asc, "the range of a few keys between it and that end", |s, k, low| match (choose(2), low) {
        (0, true) => s.walk(Bd::Un, Bd::In(k), Walk::Back, false),
        (_, true) => s.walk_mut(Bd::Un, Bd::Ex(k), Walk::Front, false),
        (0, false) => s.walk(Bd::In(k), Bd::Un, Walk::Front, false),
        _ => s.walk_mut(Bd::Ex(k), Bd::Un, Walk::Back, false),
    });
}

// ---- P06 ----------------------------------------------------------------------------------

fn p06(o: &mut Out) {
    type T = U4;
    let w = [GetMut, Index, Entry, IterMut, RangeMut];
    for (b, n) in [(Build::Load, 18), (Build::Asc, 13), (Build::Desc, 13), (Build::Zig, 13), (Build::Mid, 13)] {
        pre::<SKey, SVal, T>(o, "n4", b, n, Thin::GapUp, vec![vec![GetMut, Index, IterMut]]);
        pre::<SKey, SVal, T>(o, "n4", b, n, Thin::None, vec![w.to_vec()]);
        pre::<SKey, SVal, T>(o, "n4", b, o.q(7, 9), Thin::GapUp, vec![w.to_vec()]);
    }
    pre::<SKey, SVal, T>(o, "n4", Build::Load, 6, Thin::None, vec![vec![GetMut, RangeMut], vec![GetMut, EntryShort, IterMut]]);
    for (b, n) in [(Build::Load, 18), (Build::Asc, 13), (Build::Desc, 13)] {
        pre::<SKey, SVal, T>(o, "n4", b, n, Thin::Notch(3, 2), vec![vec![GetMut, Index, Entry, IterMut]]);
        pre::<SKey, SVal, T>(o, "n4", b, o.q(7, 10), Thin::Notch(1, 1), vec![vec![RangeMut]]);
    }
    pre::<SKey, SVal, T>(o, "n4", Build::Load, 64, Thin::Notch(1, 1), vec![vec![GetMut, IterMut]]);
    pre::<SKey, SVal, T>(o, "n4", Build::Load, 68, o.keep(), vec![vec![GetMut, Index, IterMut]]);
    pre::<SKey, SVal, T>(o, "n4", Build::Load, 68, Thin::None, vec![vec![GetMut, Index, Entry, IterMut], vec![GetMut]][..o.q(1, 2)].to_vec());
    pre::<SKey, SVal, T>(o, "n4", Build::Load, o.q(9, 12), Thin::Mask, vec![vec![GetMut, IterMut]]);
    pre::<SKey, SVal, T>(o, "n4", Build::Load, 18, Thin::All, vec![w.to_vec()]);
    pre::<SKey, SVal, C55<Unique>>(o, "n5", Build::Load, 26, Thin::None, vec![vec![GetMut, Index, IterMut, Entry]]);
    pre::<SKey, SVal, S4>(o, "n4-rc", Build::Load, o.q(14, 18), Thin::GapUp, vec![vec![GetMut, Index, IterMut, Entry]]);
    pre::<SKey, SVal, A4>(o, "n4-arc", Build::Load, o.q(14, 18), Thin::GapUp, vec![vec![GetMut, Index, IterMut, Entry]]);
    pre::<SKey, SVal, Tree64<Unique>>(o, "tree64", Build::Load, 66, Thin::None, vec![vec![GetMut, Index, IterMut]]);
    pre::<SKey, SVal, Tree64<Unique>>(o, "tree64", Build::Load, 4097, Thin::None, vec![vec![GetMut]]);
    hist::<SKey, SVal, T>(o, "n4", [rep(&[Ins], 3), rep(&w, 1), rep(&[GetMut, IterMut], 1)].concat());
    for how in [1] {
        iter_sc::<SKey, SVal, T>(o, "n4", Build::Load, 9, Thin::None, Walk::Any, how);
        range_sc::<SKey, SVal, T>(o, "n4", Build::Load, 5, Thin::None, Ends::Any, Walk::Any, how);
        methods_sc::<SKey, SVal, T>(o, "n4", Build::Load, o.q(7, 12), Thin::None, how, None);
        methods_sc::<SKey, SVal, T>(o, "n4", Build::Load, o.q(5, 8), Thin::GapUp, how, None);
        methods_sc::<SKey, SVal, T>(o, "n4", Build::Load, o.q(9, 18), Thin::None, how, Some(Ends::One));
        methods_sc::<SKey, SVal, T>(o, "n4", Build::Load, o.q(4, 6), Thin::None, how, Some(Ends::Any));
    }
    for (b, n) in [(Build::Load, 260), (Build::Load, o.q(4097, 16385)), (Build::Asc, o.q(700, 2800))] {
        deep::<SKey, SVal, T>(o, "n4", b, n, Deep::Mutate);
    }
}

// ---- P07 ----------------------------------------------------------------------------------

fn owned_sc<K: KeyT, V: ValT, C: TreeConfig<K, V> + 'static>(o: &mut Out, tag: &str, b: Build, n: usize, t: Thin, w: Walk, abandon: bool) {
    o.add(
        format!("{tag}/{b:?}upto{n}-{t:?}-into_iter-{w:?}{}", if abandon { "-abandon" } else { "" }),
        format!("up to {n} symbolic keys built by {b:?}, thinned by {t:?}; consumed, ends taken by {w:?}{}", if abandon { ", dropped after a chosen number of steps" } else { "" }),
        move || {
            let n = choose(n + 1);
            let s = prestate::<K, V, C>(b, n, t);
            consume(s, w, abandon);
            check_clean();
        },
    );
}
fn consume<K: KeyT, V: ValT, C: TreeConfig<K, V> + 'static>(s: Sys<K, V, C>, w: Walk, abandon: bool) {
    let Sys { tree, model } = s;
    let n = model.len();
    let stop = if abandon { choose(n + 1) } else { usize::MAX };
    let mut it = call(|| tree.into_iter());
    let mut wk = Walker::new(w, n);
    let (mut lo, mut hi) = (0, n);
    let mut nones = 0;
    let mut steps = 0;
    trace!("into_iter {:?} stop {}", w, stop as i64);
    loop {
        check!(it.size_hint() == (hi - lo, Some(hi - lo)), "size_hint {:?}, {} entries left", it.size_hint(), hi - lo);
        check!(it.len() == hi - lo, "ExactSizeIterator::len {}, {} entries left", it.len(), hi - lo);
        if steps == stop {
            reach("abandoned");
            break;
        }
        steps += 1;
        let front = wk.front();
        let g = call(|| if front { it.next() } else { it.next_back() });
        let gt = g.as_ref().map(|(k, v)| (k.term(), v.term()));
        call(|| drop(g));
        let want = if lo >= hi {
            None
        } else if front {
            lo += 1;
            Some(model[lo - 1])
        } else {
            hi -= 1;
            Some(model[hi])
        };
        trace!("  {} -> {:?}", if front { "next" } else { "next_back" }, gt);
        check!(gt == want, "consuming iterator: {} step yielded {:?}, expected {:?}", if front { "front" } else { "back" }, gt, want);
        if want.is_none() {
            nones += 1;
            if nones == 2 {
                break;
            }
        }
    }
    call(|| drop(it));
}
fn p07(o: &mut Out) {
    type T = U4;
    for n in [0, 1, 6, 9, 18, 70] {
        methods_sc::<SKey, SVal, T>(o, "n4", Build::Load, n, Thin::None, 2, None);
    }
    methods_sc::<SKey, SVal, T>(o, "n4", Build::Asc, o.q(11, 16), Thin::GapUp, 2, None);
    methods_sc::<SKey, SVal, T>(o, "n4", Build::Load, o.q(9, 14), Thin::GapUp, 2, None);
    methods_sc::<SKey, SVal, T>(o, "n4", Build::Load, 10, Thin::All, 2, None);
    methods_sc::<SKey, SVal, T>(o, "n4", Build::Load, o.q(260, 1040), Thin::None, 2, None);
    methods_sc::<SKey, SVal, Tree64<Unique>>(o, "tree64", Build::Load, 140, Thin::None, 2, None);
    methods_sc::<SKey, SVal, S4>(o, "n4-rc", Build::Load, 9, Thin::None, 2, None);
    owned_sc::<SKey, SVal, T>(o, "n4", Build::Load, o.q(10, 13), Thin::None, Walk::Any, false);
    owned_sc::<SKey, SVal, T>(o, "n4", Build::Asc, o.q(9, 11), Thin::None, Walk::Any, false);
    owned_sc::<SKey, SVal, T>(o, "n4", Build::Load, o.q(7, 8), Thin::Mask, Walk::Any, false);
    owned_sc::<SKey, SVal, T>(o, "n4", Build::Load, o.q(7, 9), Thin::None, Walk::Any, true);
    owned_sc::<SKey, SVal, T>(o, "n4", Build::Load, o.q(36, 70), Thin::None, Walk::Turn, false);
    owned_sc::<SKey, SVal, T>(o, "n4", Build::Load, o.q(16, 22), Thin::GapUp, Walk::Turn, false);
    owned_sc::<SKey, SVal, T>(o, "n4", Build::Asc, o.q(13, 20), Thin::GapUp, Walk::Turn, false);
    owned_sc::<SKey, SVal, T>(o, "n4", Build::Desc, 20, Thin::Gap, Walk::Alt, false);
    owned_sc::<SKey, SVal, T>(o, "n4", Build::Load, 68, o.keep(), Walk::Alt, false);
    owned_sc::<SKey, SVal, T>(o, "n4", Build::Load, 70, Thin::All, Walk::Alt, false);
    owned_sc::<SKey, SVal, T>(o, "n4", Build::Load, 70, Thin::None, Walk::Alt, true);
    owned_sc::<SKey, SVal, T>(o, "n4", Build::Load, 70, Thin::None, Walk::Back, true);
    owned_sc::<SKey, SVal, T>(o, "n4", Build::Asc, 40, Thin::Ends, Walk::Front, false);
    owned_sc::<SKey, SVal, C55<Unique>>(o, "n5", Build::Asc, 30, Thin::GapUp, Walk::Back, false);
    owned_sc::<SKey, SVal, S4>(o, "n4-rc", Build::Load, o.q(8, 10), Thin::None, Walk::Any, false);
    owned_sc::<SKey, SVal, A4>(o, "n4-arc", Build::Load, o.q(8, 10), Thin::None, Walk::Any, false);
    owned_sc::<SKey, SVal, Tree64<Unique>>(o, "tree64", Build::Load, 132, Thin::None, Walk::Alt, false);
    owned_sc::<SKey, SVal, Tree64<Unique>>(o, "tree64", Build::Load, 132, Thin::None, Walk::Back, true);
    o.add("n4/history-into_iter", "history of insertions and removals with symbolic keys, then consumed from freely chosen ends", {
        let n = o.q(4, 5);
        move || {
            let mut s = Sys::<SKey, SVal, U4>::new();
            for _ in 0..n {
                any_op(&mut s, &[Ins, Rem]);
            }
            consume(s, Walk::Any, false);
            check_clean();
        }
    });
    for (b, n) in [(Build::Load, 260), (Build::Load, o.q(4097, 16385)), (Build::Asc, o.q(700, 2800)), (Build::Desc, o.q(700, 2800))] {
        deep::<SKey, SVal, T>(o, "n4", b, n, Deep::Consume);
    }
    deep::<SKey, SVal, T>(o, "n4", Build::Load, o.q(16385, 65537), Deep::Consume);
    deep::<SKey, SVal, Tree64<Unique>>(o, "tree64", Build::Load, 4160, Deep::Consume);
    deep::<SKey, SVal, Tree64<Unique>>(o, "tree64", Build::Asc, 2200, Deep::Consume);
}

// ---- P08 ----------------------------------------------------------------------------------

/// Ways to construct a tree from pairs with keys `keys` (ascending) and new values.
fn construct<K: KeyT, V: ValT, C: TreeConfig<K, V> + 'static>(how: usize, pairs: &[(Term, Term)]) -> PalmTree<K, V, C> {
    let mk = |p: &(Term, Term)| (K::mk(p.0), V::mk(p.1));
    match how {
        0 => call(|| PalmTree::load(pairs.iter().map(mk))),
        1 => {
            // the map itself belongs to the caller
            let m: BTreeMap<K, V> = call(|| pairs.iter().rev().map(mk).collect());
            call(|| PalmTree::from(m))
        }
        2 => call(|| pairs.iter().map(mk).collect()),
        3 => call(|| {
            let mut t = PalmTree::new();
            t.extend(pairs.iter().map(mk));
            t
        }),
        4 => call(|| {
            let mut t = PalmTree::new();
            for p in pairs {
                let (k, v) = mk(p);
                t.insert(k, v);
            }
            t
        }),
        // iterators that say nothing, or too little, about their length
        5 => {
            let mut it = pairs.iter();
            call(|| PalmTree::load(std::iter::from_fn(move || it.next().map(mk))))
        }
        6 => {
            let mut it = pairs.iter();
            call(|| std::iter::from_fn(move || it.next().map(mk)).collect())
        }
        7 => call(|| {
            let mut t = PalmTree::new();
            t.extend(Vague(pairs.iter().map(mk)));
            t
        }),
        _ => call(|| PalmTree::load(Vague(pairs.iter().map(mk)))),
    }
}
/// An iterator with a correct but loose size hint.
struct Vague<I>(I);
impl<I: Iterator> Iterator for Vague<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        self.0.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        (0, self.0.size_hint().1.map(|n| n * 2 + 3))
    }
}
const HOW: [&str; 9] = ["load", "from-btreemap", "collect", "extend", "insert", "load-unsized", "collect-unsized", "extend-vague", "load-vague"];
fn bulk_sc<K: KeyT, V: ValT, C: TreeConfig<K, V> + 'static>(o: &mut Out, tag: &str, lo: usize, hi: usize, hows: &'static [usize], steps: Vec<Vec<Op>>) {
    let shape: Vec<String> = steps.iter().map(|s| format!("{s:?}")).collect();
    let hn: Vec<&str> = hows.iter().map(|h| HOW[*h]).collect();
    o.add(
        format!("{tag}/bulk-{lo}-{hi}-{}-{}", hn.join("+"), shape.join("").replace(['[', ']', ',', ' '], "")),
        format!("every number of entries {lo}..={hi} (symbolic ascending keys), by {}, then {}", hn.join(", "), shape.join(" then ")),
        move || {
            let n = choose_in(lo, hi);
            let how = hows[choose(hows.len())];
            let keys = chain(n);
            let pairs: Model = keys.iter().map(|&k| (k, new_val())).collect();
            trace!("{} of {n} pairs", HOW[how]);
            let tree = construct::<K, V, C>(how, &pairs);
            let mut s = Sys::from_parts(tree, pairs.into_iter().map(|(k, v)| (k, V::canon(v))).collect());
            s.check_all();
            for ops in &steps {
                any_op(&mut s, ops);
            }
            if !steps.is_empty() {
                s.check_all();
            }
            s.finish();
        },
    );
}
fn p08(o: &mut Out) {
    type T = U4;
    bulk_sc::<SKey, SVal, T>(o, "n4", 0, o.q(80, 260), &[0, 1, 2, 3], vec![]);
    bulk_sc::<SKey, SVal, T>(o, "n4", 0, o.q(70, 130), &[5, 6, 7, 8], vec![]);
    for (lo, hi) in [(255, 258), (1022, 1026), (4095, 4098)] {
        bulk_sc::<SKey, SVal, T>(o, "n4", lo, hi, &[0, 1, 2, 3], vec![]);
    }
    bulk_sc::<SKey, SVal, C55<Unique>>(o, "n5", 0, o.q(130, 200), &[0, 2], vec![]);
    bulk_sc::<SKey, SVal, C46<Unique>>(o, "n4-6", 0, 100, &[0, 2], vec![]);
    bulk_sc::<SKey, SVal, C64<Unique>>(o, "n6-4", 0, 150, &[0, 2], vec![]);
    bulk_sc::<SKey, SVal, T>(o, "n4", 0, o.q(20, 70), &[0, 1, 2, 3], vec![vec![Ins, Rem, RemLow, RemHigh, Get, Entry]]);
    bulk_sc::<SKey, SVal, T>(o, "n4", o.q(14, 0), o.q(18, 22), &[0, 1, 3], vec![vec![Ins, Rem], vec![Ins, Rem]]);
    bulk_sc::<SKey, SVal, T>(o, "n4", o.q(63, 62), 66, &[0, 1], vec![if o.thorough { vec![Ins, Rem, Range] } else { vec![Ins, Rem] }]);
    bulk_sc::<SKey, SVal, Tree64<Unique>>(o, "tree64", 0, o.q(140, 300), &[0, 1, 2], vec![]);
    bulk_sc::<SKey, SVal, Tree64<Unique>>(o, "tree64", 63, 66, &[0, 1], vec![vec![Ins, Rem]]);
    bulk_sc::<SKey, SVal, Tree64<Unique>>(o, "tree64", 4094, 4098, &[0], vec![]);
    bulk_sc::<SKey, SVal, S4>(o, "n4-rc", 0, 40, &[0, 1, 3], vec![vec![Ins, Rem]]);
    bulk_sc::<SKey, SVal, A4>(o, "n4-arc", 0, 40, &[0, 1, 3], vec![vec![Ins, Rem]]);
    // collect / extend with arbitrary, possibly repeated, keys onto any starting tree
    for (b, n, t, m) in [(Build::Load, 0, Thin::None, o.q(5, 6)), (Build::Load, 5, Thin::None, o.q(3, 4)), (Build::Load, o.q(7, 9), Thin::GapUp, 2), (Build::Asc, o.q(6, 8), Thin::GapUp, 2), (Build::Load, 18, Thin::All, 3), (Build::Load, 17, Thin::None, 2)] {
        o.add(
            format!("n4/{b:?}{n}-{t:?}-extend{m}"),
            format!("{n} symbolic keys built by {b:?}, thinned by {t:?}, extended (or collected when empty) by {m} pairs with unconstrained symbolic keys; then one more insertion"),
            move || {
                let mut s = prestate::<SKey, SVal, U4>(b, n, t);
                let pairs: Model = (0..m).map(|_| (fresh(), new_val())).collect();
                let collect = n == 0 && choose(2) == 0;
                trace!("{} {:?}", if collect { "collect" } else { "extend" }, pairs.iter().map(|p| (show(p.0), p.1)).collect::<Vec<_>>());
                if collect {
                    s = Sys::from_parts(construct(2, &pairs), vec![]);
                } else {
                    let t = &mut s.tree;
                    call(|| t.extend(pairs.iter().map(|p| (SKey::mk(p.0), SVal::mk(p.1)))));
                }
                for (k, v) in pairs {
                    match find(&s.model, k) {
                        Ok(i) => s.model[i].1 = v,
                        Err(i) => s.model.insert(i, (k, v)),
                    }
                }
                s.check_all();
                s.insert(fresh());
                s.check_all();
                s.finish();
            },
        );
    }
    // long runs of pairs, with one symbolic key somewhere among them
    for (n, m) in [(0usize, 20usize), (6, 20), (18, 18), (o.q(0, 66), 66)] {
        o.add(
            format!("n4/extend-long-{n}-{m}"),
            format!("a tree of {n} keys extended by {m} pairs above, below, among or equal to them, ascending or descending, with a pair with an unconstrained symbolic key first, in the middle or last; by extend or, from nothing, by collect"),
            move || {
                let keys = chain(n + m);
                let (old, new) = split_chain(&keys, n, choose(6));
                let mut s = build::<SKey, SVal, U4>(Build::Load, &old);
                let mut pairs: Model = new.iter().map(|&k| (k, new_val())).collect();
                if choose(2) == 1 {
                    pairs.reverse();
                }
                pairs.insert([0, m / 2, m][choose(3)], (fresh(), new_val()));
                trace!("extend {} by {}", show_model(&s.model), show_model(&pairs));
                if n == 0 && choose(2) == 0 {
                    s = Sys::from_parts(construct([2, 6][choose(2)], &pairs), vec![]);
                } else {
                    let t = &mut s.tree;
                    let mk = |p: &(Term, Term)| (SKey::mk(p.0), SVal::mk(p.1));
                    if choose(2) == 0 {
                        call(|| t.extend(pairs.iter().map(mk)));
                    } else {
                        call(|| t.extend(Vague(pairs.iter().map(mk))));
                    }
                }
                for (k, v) in pairs {
                    match find(&s.model, k) {
                        Ok(i) => s.model[i].1 = v,
                        Err(i) => s.model.insert(i, (k, v)),
                    }
                }
                s.check_all();
                s.finish();
            },
        );
    }
    // extend by references
    o.add("n4/extend-refs", "0..=6 symbolic copyable pairs, extended by reference with 2 unconstrained symbolic pairs", || {
        let n = choose(7);
        let mut s = prestate::<CKey, CVal, U4>(Build::Load, n, Thin::None);
        let pairs: Model = (0..2).map(|_| (fresh(), new_val())).collect();
        let src: Vec<(CKey, CVal)> = pairs.iter().map(|p| (CKey::mk(p.0), CVal::mk(p.1))).collect();
        let t = &mut s.tree;
        call(|| t.extend(src.iter().map(|p| (&p.0, &p.1))));
        for (k, v) in pairs {
            match find(&s.model, k) {
                Ok(i) => s.model[i].1 = v,
                Err(i) => s.model.insert(i, (k, v)),
            }
        }
        s.check_all();
        s.finish();
    });
    // unordered input is rejected in debug builds
    for (pre, m) in [(0usize, o.q(4, 5)), (3, 2), (4, 2), (15, 2), (16, 2)] {
        let sc = o.add(
            format!("n4/load-order-{pre}-{m}"),
            format!("load of {pre} ascending symbolic keys followed by {m} unconstrained ones: panics exactly when not strictly ascending (debug builds)"),
            move || {
                let mut keys = chain(pre);
                let mut rest = Vec::new();
                for _ in 0..m {
                    let k = fresh();
                    keys.push(k);
                    rest.push(k);
                }
                let pairs: Model = keys.iter().map(|&k| (k, new_val())).collect();
                let r = catch(|| call(|| PalmTree::<SKey, SVal, U4>::load(pairs.iter().map(|p| (SKey::mk(p.0), SVal::mk(p.1))))));
                let asc = pairs.windows(2).all(|w| cmp(w[0].0, w[1].0) == std::cmp::Ordering::Less);
                trace!("load {:?} -> {}", pairs.iter().map(|p| show(p.0)).collect::<Vec<_>>(), if r.is_ok() { "ok" } else { "panic" });
                match r {
                    Ok(tree) => {
                        if asc {
                            reach("accepted");
                            let s = Sys::from_parts(tree, pairs);
                            s.check_all();
                            s.finish();
                        } else {
                            check!(!cfg!(debug_assertions), "load accepted keys that are not strictly ascending");
                            call(|| drop(tree));
                        }
                    }
                    Err(m) => {
                        reach("rejected");
                        check!(!asc, "load of ascending keys panicked: {m}");
                    }
                }
            },
        );
        sc.labels.push("accepted");
        if cfg!(debug_assertions) {
            sc.labels.push("rejected");
        }
    }
}

// ---- P09 ----------------------------------------------------------------------------------

/// The biased union of two reference lists.
fn union(l: &Model, r: &Model, left: bool) -> Model {
    let mut m = l.clone();
    for &(k, v) in r {
        match find(&m, k) {
            Ok(i) => {
                if !left {
                    m[i] = (k, v)
                }
            }
            Err(i) => m.insert(i, (k, v)),
        }
    }
    m
}
const MERGES: [&str; 8] = ["merge_left", "merge_right", "merge_left_iter", "merge_right_iter", "append_left", "append_right", "add", "add_assign"];
fn merge<K: KeyT, V: ValT, C: TreeConfig<K, V> + 'static>(a: Sys<K, V, C>, b: Sys<K, V, C>, how: usize) -> Sys<K, V, C> {
    let left = matches!(how, 0 | 2 | 4);
    trace!("{} of {} and {}", MERGES[how], show_model(&a.model), show_model(&b.model));
    let (ta, tb) = (a.tree, b.tree);
    let mut items: Option<Vec<(K, V)>> = None;
    let tree = call(|| match how {
        0 => PalmTree::merge_left(ta, tb),
        1 => PalmTree::merge_right(ta, tb),
        2 | 3 => {
            let off = crate::alloc::Set::to(false);
            let mut v = Vec::new();
            drop(off);
            if how == 2 {
                for e in PalmTree::merge_left_iter(ta, tb) {
                    let _g = crate::alloc::Set::to(false);
                    v.push(e);
                }
            } else {
                for e in PalmTree::merge_right_iter(ta, tb) {
                    let _g = crate::alloc::Set::to(false);
                    v.push(e);
                }
            }
            items = Some(v);
            PalmTree::new()
        }
        4 => {
            let mut t = ta;
            t.append_left(tb);
            t
        }
        5 => {
            let mut t = ta;
            t.append_right(tb);
            t
        }
        6 => ta + tb,
        _ => {
            let mut t = ta;
            t += tb;
            t
        }
    });
    let want = union(&a.model, &b.model, left);
    if let Some(v) = items {
        let got: Model = v.iter().map(|(k, v)| (k.term(), v.term())).collect();
        check!(got == want, "{} yielded {}, expected {}", MERGES[how], show_model(&got), show_model(&want));
        call(|| drop(tree));
        let tree = call(|| PalmTree::load(v));
        return Sys::from_parts(tree, want);
    }
    Sys::from_parts(tree, want)
}
fn merge_sc<K: KeyT, V: ValT, C: TreeConfig<K, V> + 'static>(o: &mut Out, tag: &str, ba: Build, na: usize, ta: Thin, bb: Build, nb: usize, tb: Thin, after: bool) {
    o.add(
        format!("{tag}/merge-{ba:?}{na}-{ta:?}-with-{bb:?}{nb}-{tb:?}{}", if after { "-then-op" } else { "" }),
        format!("two trees of up to {na} and {nb} symbolic keys in every relative order ({ba:?}/{ta:?} and {bb:?}/{tb:?}), merged in all 8 ways{}", if after { ", then one symbolic insertion or removal" } else { "" }),
        move || {
            let how = choose(8);
            let (na, nb) = if ta == Thin::None && !after { (choose(na + 1), choose(nb + 1)) } else { (na, nb) };
            let a = prestate::<K, V, C>(ba, na, ta);
            let b = prestate::<K, V, C>(bb, nb, tb);
            let mut s = merge(a, b, how);
            s.check_all();
            if after {
                any_op(&mut s, &[Ins, Rem]);
                s.check_all();
            }
            s.finish();
        },
    );
}
/// Two sets of n and m keys out of an ascending chain of n + m: below, above, alternating, second
/// within the first, first within the second, or with as many keys as possible in common.
fn split_chain(keys: &[Term], n: usize, shape: usize) -> (Vec<Term>, Vec<Term>) {
    let m = keys.len() - n;
    let pick = |f: &dyn Fn(usize) -> bool| {
        let (a, b): (Vec<_>, Vec<_>) = (0..n + m).partition(|&i| f(i));
        (a.into_iter().map(|i| keys[i]).collect(), b.into_iter().map(|i| keys[i]).collect())
    };
    match shape {
        0 => pick(&|i| i < n),
        1 => pick(&|i| i >= m),
        2 => {
            let both = 2 * n.min(m);
            pick(&|i| if i < both { i % 2 == 0 } else { n > m })
        }
        3 => pick(&|i| i < n / 2 || i >= n / 2 + m),
        4 => pick(&|i| i >= m / 2 && i < m / 2 + n),
        _ => (keys[..n].to_vec(), keys[..m].to_vec()),
    }
}
/// Larger trees merged: every arrangement of `split_chain`, or touching in one key at either end.
fn merge_big<K: KeyT, V: ValT, C: TreeConfig<K, V> + 'static>(o: &mut Out, tag: &str, ba: Build, na: usize, bb: Build, nb: usize) {
    o.add(
        format!("{tag}/merge-big-{ba:?}{na}-{bb:?}{nb}"),
        format!("trees of {na} and up to a leaf more ({ba:?}) and {nb} ({bb:?}) keys, side by side, alternating, nested, equal or with one key in common at an end; possibly after removing an end key or a node's worth of keys; merged in all 8 ways, then a symbolic key near either end of the smaller one inserted or removed"),
        move || {
            let (shape, thin) = (choose(8), choose(7));
            let l = leaf_size::<K, V, C>();
            // every remainder of the sum of lengths by the leaf size comes up
            let na = na + (shape * 7 + thin) % l;
            let keys = chain(na + nb);
            let (a, b) = match shape {
                6 => (keys[..na].to_vec(), keys[na - 1..na - 1 + nb].to_vec()),
                7 => (keys[nb - 1..nb - 1 + na].to_vec(), keys[..nb].to_vec()),
                c => split_chain(&keys, na, c),
            };
            let mut a = build::<K, V, C>(ba, &a);
            let mut b = build::<K, V, C>(bb, &b);
            match thin {
                0 => {}
                1 => a.remove_high(),
                2 => b.remove_high(),
                3 => a.remove_low(),
                4 => b.remove_low(),
                5 => (0..l.min(na)).for_each(|_| a.remove_high()),
                _ => (0..l.min(nb)).for_each(|_| b.remove_high()),
            }
            let ends = [a.model.first(), a.model.last(), b.model.first(), b.model.last()].map(|e| e.map(|e| e.0));
            let mut s = merge(a, b, choose(8));
            s.check_all();
            if let Some(e) = ends[choose(4)] {
                let at = find(&s.model, e).unwrap_or(0);
                let k = near(&s.model, at, 1);
                any_key(&mut s, k);
                s.check_iter();
            }
            s.finish();
        },
    );
}
fn any_key<K: KeyT, V: ValT, C: TreeConfig<K, V> + 'static>(s: &mut Sys<K, V, C>, k: Term) {
    if choose(2) == 0 {
        s.insert(k)
    } else {
        s.remove(k)
    }
}
fn p09(o: &mut Out) {
    type T = U4;
    let l = Build::Load;
    merge_big::<SKey, SVal, T>(o, "n4", l, 18, Build::Asc, 13);
    merge_big::<SKey, SVal, T>(o, "n4", Build::Desc, 13, l, 70);
    merge_big::<SKey, SVal, T>(o, "n4", Build::Asc, 44, l, 18);
    merge_big::<SKey, SVal, S4>(o, "n4-rc", l, 17, l, 17);
    merge_big::<SKey, SVal, Tree64<Unique>>(o, "tree64", l, 130, Build::Asc, 66);
    merge_sc::<SKey, SVal, T>(o, "n4", l, o.q(4, 5), Thin::None, l, o.q(4, 5), Thin::None, false);
    merge_sc::<SKey, SVal, T>(o, "n4", l, o.q(19, 40), Thin::None, l, 2, Thin::None, false);
    merge_sc::<SKey, SVal, T>(o, "n4", l, 2, Thin::None, Build::Asc, o.q(19, 40), Thin::None, false);
    merge_sc::<SKey, SVal, T>(o, "n4", l, 7, Thin::GapUp, l, 1, Thin::None, true);
    merge_sc::<SKey, SVal, T>(o, "n4", l, 1, Thin::None, Build::Asc, 7, Thin::GapUp, true);
    merge_sc::<SKey, SVal, T>(o, "n4", l, 6, Thin::GapUp, l, 6, Thin::All, true);
    merge_sc::<SKey, SVal, T>(o, "n4", l, 6, Thin::All, l, 6, Thin::GapUp, true);
    merge_sc::<SKey, SVal, T>(o, "n4", l, 18, Thin::All, l, 18, Thin::All, true);
    merge_sc::<SKey, SVal, T>(o, "n4", l, 0, Thin::All, l, 18, o.keep(), true);
    merge_sc::<SKey, SVal, T>(o, "n4", l, 66, o.keep(), l, 1, Thin::All, true);
    merge_sc::<SKey, SVal, C55<Unique>>(o, "n5", l, o.q(3, 4), Thin::None, Build::Asc, o.q(7, 8), Thin::None, false);
    merge_sc::<SKey, SVal, S4>(o, "n4-rc", l, 3, Thin::None, l, 5, Thin::None, false);
    merge_sc::<SKey, SVal, A4>(o, "n4-arc", l, 5, Thin::None, l, 3, Thin::None, false);
    merge_sc::<SKey, SVal, Tree64<Unique>>(o, "tree64", l, 66, o.keep(), l, 1, Thin::All, true);
    // + and += with a borrowed tree of another configuration
    for (na, nb) in [(o.q(4, 5), o.q(5, 6)), (18, 1), (1, 18), (0, 66)] {
        o.add(
            format!("n4/add-ref-{na}-{nb}"),
            format!("a tree of up to {na} and a borrowed tree (other node sizes) of up to {nb} symbolic copyable keys in every relative order, + and +=; the borrowed tree stays as it was"),
            move || {
                let (na, nb) = (choose(na + 1), choose(nb + 1));
                let emptied = choose(2) == 1;
                let a = prestate::<CKey, CVal, U4>(Build::Load, na, if emptied { Thin::All } else { Thin::None });
                let b = prestate::<CKey, CVal, C45<Shared>>(Build::Load, nb, Thin::None);
                let assign = choose(2) == 1;
                let (ta, tb) = (a.tree, &b.tree);
                let tree = call(|| {
                    if assign {
                        let mut t = ta;
                        t += tb;
                        t
                    } else {
                        ta + tb
                    }
                });
                let s = Sys::from_parts(tree, union(&a.model, &b.model, false));
                s.check_all();
                b.check_all();
                s.finish2(b);
            },
        );
    }
}

// ---- P10 ----------------------------------------------------------------------------------

fn p10(o: &mut Out) {
    fn one<K: KeyT, V: ValT, C: TreeConfig<K, V> + 'static>(o: &mut Out, tag: &str, big: bool) {
        let ops = [Ins, Rem, RemLow, RemHigh, GetMut, EntryShort, IterMut];
        hist::<K, V, C>(o, tag, rep(&ops, if big { 4 } else { 3 }));
        pre::<K, V, C>(o, tag, Build::Load, if big { 17 } else { o.q(9, 17) }, Thin::Gap, vec![vec![Ins, RemHigh, EntryShort]]);
        pre::<K, V, C>(o, tag, Build::Asc, if big { o.q(10, 14) } else { o.q(8, 14) }, Thin::Gap, vec![vec![Ins, RemLow, Entry]]);
        pre::<K, V, C>(o, tag, Build::RecAsc, o.q(10, 14), Thin::GapUp, vec![vec![InsRec, Rem]]);
        pre::<K, V, C>(o, tag, Build::Load, if big { o.q(65, 66) } else { 17 }, Thin::None, vec![vec![Ins, Entry], vec![Ins, Rem]][..if big { o.q(1, 2) } else { 2 }].to_vec());
        pre::<K, V, C>(o, tag, Build::Load, 66, o.keep(), vec![vec![Ins, Rem]]);
        owned_sc::<K, V, C>(o, tag, Build::Load, if big { 10 } else { 6 }, Thin::None, Walk::Any, true);
        owned_sc::<K, V, C>(o, tag, Build::Load, 22, Thin::None, Walk::Turn, true);
        owned_sc::<K, V, C>(o, tag, Build::Asc, 12, Thin::GapUp, Walk::Alt, true);
        methods_sc::<K, V, C>(o, tag, Build::Load, o.q(9, 14), Thin::None, 2, None);
        // clones dropped, consumed and abandoned in every order
        let full = o.thorough && !big;
        o.add(format!("{tag}/clones"), "0..=17 (quick: 0, 1, 5) symbolic keys, emptied or not, cloned once (thorough: twice); copies mutated, consumed part-way or dropped in every order", move || {
            let n = if full { [0, 1, 4, 5, 17][choose(5)] } else { [0, 1, 5][choose(3)] };
            let s = prestate::<K, V, C>(Build::Load, n, Thin::All.only(choose(2) == 1));
            let a = s.fork();
            let mut v = vec![s, a];
            if full {
                v.push(v[1].fork());
            }
            while !v.is_empty() {
                let mut x = v.remove(choose(v.len()));
                match choose(4) {
                    0 => x.done(),
                    1 => consume(x, Walk::Alt, true),
                    2 => {
                        x.insert(fresh());
                        x.remove_low();
                        x.check_iter();
                        x.done();
                    }
                    _ => {
                        x.walk_mut(Bd::Un, Bd::Un, Walk::Back, true);
                        x.check_iter();
                        x.done();
                    }
                }
                for y in &v {
                    y.check_iter();
                }
            }
            check_clean();
        });
        o.add(format!("{tag}/merge-abandon"), "merging two trees of up to 5 and 3 symbolic keys; the merged iterator dropped after a chosen number of steps", move || {
            let a = prestate::<K, V, C>(Build::Load, choose(6), Thin::None);
            let b = prestate::<K, V, C>(Build::Load, choose(4), Thin::None);
            let left = choose(2) == 0;
            let want = union(&a.model, &b.model, left);
            let stop = choose(want.len() + 1);
            let (ta, tb) = (a.tree, b.tree);
            let mut got = Vec::new();
            call(|| {
                fn run<K: KeyT, V: ValT>(it: impl Iterator<Item = (K, V)>, stop: usize, got: &mut Vec<(Term, Term)>) {
                    for (k, v) in it.take(stop) {
                        let _g = crate::alloc::Set::to(false);
                        got.push((k.term(), v.term()));
                    }
                }
                if left {
                    run(PalmTree::merge_left_iter(ta, tb), stop, &mut got)
                } else {
                    run(PalmTree::merge_right_iter(ta, tb), stop, &mut got)
                }
            });
            check!(got[..] == want[..stop], "merge yielded {}, expected {}", show_model(&got), show_model(&want));
            check_clean();
        });
    }
    one::<SKey, SVal, U4>(o, "n4", true);
    one::<SKey, SVal, S4>(o, "n4-rc", false);
    one::<SKey, SVal, A4>(o, "n4-arc", false);
    one::<SKey, SVal, C55<Unique>>(o, "n5", false);
    // only one side needs releasing; neither does (memory blocks are still counted)
    one::<CKey, SVal, U4>(o, "n4-copykey", false);
    one::<SKey, CVal, S4>(o, "n4-rc-copyval", false);
    one::<CKey, CVal, C45<Unique>>(o, "n4-5-copy", false);
    one::<SKey, ZVal, A4>(o, "n4-arc-counted-unit", false);
    one::<CKey, ZVal, U4>(o, "n4-copykey-counted-unit", false);
    if o.thorough {
        one::<SKey, SVal, C77<Unique>>(o, "n7", true);
        one::<SKey, SVal, C45<Shared>>(o, "n4-5-rc", true);
        one::<SKey, SVal, C54<SyncShared>>(o, "n5-4-arc", true);
        one::<AKey, AVal, S4>(o, "n4-rc-align64", false);
    }
    pre::<SKey, SVal, Tree64<Unique>>(o, "tree64", Build::Load, 65, Thin::None, vec![vec![Ins, Rem, Entry]]);
    pre::<SKey, SVal, Tree64<Shared>>(o, "tree64-rc", Build::Asc, 66, Thin::None, vec![vec![Ins, Rem, RemHigh]]);
    bulk_sc::<SKey, SVal, U4>(o, "n4", 0, 70, &[0, 1], vec![]);
}

// ---- P11 ----------------------------------------------------------------------------------

const TOUCH: usize = 18;
/// Apply one of the mutating operations to a tree, possibly consuming it.
fn touch<K: KeyT, V: ValT, C: TreeConfig<K, V> + 'static>(mut s: Sys<K, V, C>, c: usize) -> Option<Sys<K, V, C>> {
    match c {
        0 => s.insert(fresh()),
        1 => s.remove(fresh()),
        2 => s.remove_low(),
        3 => s.remove_high(),
        4 => s.get_mut(fresh()),
        5 => s.index(fresh()),
        6 => s.entry(fresh(), 7),
        7 => s.insert_with(fresh(), true),
        8 => s.walk_mut(Bd::Un, Bd::Un, Walk::Front, true),
        9 => s.walk_mut(Bd::In(fresh()), Bd::Un, Walk::Back, false),
        10 => s.walk_mut(Bd::Un, Bd::Ex(fresh()), Walk::Alt, false),
        11 => {
            consume(s, Walk::Turn, false);
            return None;
        }
        12 => {
            consume(s, Walk::Alt, true);
            return None;
        }
        13 | 14 => {
            let o = Sys::<K, V, C>::new();
            let mut o = o;
            o.insert(fresh());
            let how = choose(8);
            s = if c == 13 { merge(s, o, how) } else { merge(o, s, how) };
        }
        15 => {
            let k = fresh();
            let v = new_val();
            let t = &mut s.tree;
            call(|| t.extend(vec![(K::mk(k), V::mk(v))]));
            match find(&s.model, k) {
                Ok(i) => s.model[i].1 = V::canon(v),
                Err(i) => s.model.insert(i, (k, V::canon(v))),
            }
        }
        16 => {
            s.done();
            return None;
        }
        _ => {
            // a merge of the tree with a second clone of itself
            let o = s.fork();
            let how = choose(8);
            s = merge(s, o, how);
        }
    }
    Some(s)
}
fn clone_sc<K: KeyT, V: ValT, C: TreeConfig<K, V> + 'static>(o: &mut Out, tag: &str, b: Build, n: usize, t: Thin, two: bool) {
    o.add(
        format!("{tag}/{b:?}{n}-{t:?}-clone{}", if two { "-two" } else { "" }),
        format!("{n} symbolic keys built by {b:?}, thinned by {t:?}; cloned; {TOUCH} kinds of operation on the original or the clone{}; the other one checked in full, then used on its own", if two { ", then another on the other one" } else { "" }),
        move || {
            let s = prestate::<K, V, C>(b, n, t);
            let c = s.fork();
            c.check_iter();
            let (eq, a) = (call(|| s.tree == c.tree), s);
            check!(eq, "a clone differs from its original");
            let (mut x, mut y) = if choose(2) == 0 { (a, c) } else { (c, a) };
            let op = choose(TOUCH);
            trace!("operation {op} on one copy");
            let x2 = touch(x, op);
            y.check_all();
            if let Some(x3) = x2 {
                x = x3;
                x.check_all();
                if two {
                    let op = [0, 1, 6, 8, 3][choose(5)];
                    match touch(y, op) {
                        Some(z) => y = z,
                        None => unreachable!(),
                    }
                    y.check_all();
                    x.check_all();
                }
                if choose(2) == 0 {
                    x.done();
                    y.remove_low();
                    y.check_all();
                    y.done();
                } else {
                    y.done();
                    x.remove_high();
                    x.check_all();
                    x.done();
                }
            } else {
                y.insert(fresh());
                y.remove_low();
                y.check_all();
                y.done();
            }
            check_clean();
        },
    );
}
fn p11(o: &mut Out) {
    fn one<C: TreeConfig<SKey, SVal> + 'static>(o: &mut Out, tag: &str) {
        clone_sc::<SKey, SVal, C>(o, tag, Build::Load, 0, Thin::None, true);
        clone_sc::<SKey, SVal, C>(o, tag, Build::Load, o.q(2, 4), Thin::None, true);
        clone_sc::<SKey, SVal, C>(o, tag, Build::Load, 5, Thin::None, false);
        clone_sc::<SKey, SVal, C>(o, tag, Build::Load, 17, Thin::None, false);
        clone_sc::<SKey, SVal, C>(o, tag, Build::Asc, 13, Thin::None, false);
        clone_sc::<SKey, SVal, C>(o, tag, Build::Load, 17, Thin::All, false);
        clone_sc::<SKey, SVal, C>(o, tag, Build::Load, o.q(6, 10), Thin::GapUp, false);
    }
    one::<U4>(o, "n4");
    one::<S4>(o, "n4-rc");
    one::<A4>(o, "n4-arc");
    one::<C55<Shared>>(o, "n5-rc");
    clone_sc::<SKey, SVal, Tree64<Shared>>(o, "tree64-rc", Build::Load, 3, Thin::None, false);
    clone_sc::<SKey, SVal, Tree64<SyncShared>>(o, "tree64-arc", Build::Load, o.q(3, 66), Thin::None, false);
    clone_sc::<SKey, SVal, S4>(o, "n4-rc-tall", Build::Load, o.q(33, 66), Thin::None, false);
    // mutation while a shared iterator over the other copy is alive
    fn live<C: TreeConfig<SKey, SVal> + 'static>(o: &mut Out, tag: &str) {
        o.add(format!("{tag}/iter-during"), "5, 6 or 17 symbolic keys, cloned; one operation on the clone while an iterator over the original is part-way", move || {
            let n = [5, 6, 17][choose(3)];
            let s = prestate::<SKey, SVal, C>(Build::Load, n, Thin::None);
            let c = s.fork();
            let t = &s.tree;
            let mut it = call(|| t.iter());
            let at = choose(n + 1);
            for i in 0..at {
                let g = call(|| it.next()).map(|(k, v)| (k.term(), v.term()));
                check!(g == Some(s.model[i]), "iteration wrong before the clone changed");
            }
            let r = touch(c, [0, 1, 2, 3, 4, 6, 8, 11][choose(8)]);
            for i in at..=n {
                let g = call(|| it.next()).map(|(k, v)| (k.term(), v.term()));
                check!(g == s.model.get(i).copied(), "an iterator over the original changed with the clone");
            }
            if let Some(r) = r {
                r.check_iter();
                r.done();
            }
            s.finish();
        });
    }
    live::<U4>(o, "n4");
    live::<S4>(o, "n4-rc");
    live::<A4>(o, "n4-arc");
    deep::<SKey, SVal, S4>(o, "n4-rc", Build::Load, 260, Deep::Clone);
    deep::<SKey, SVal, A4>(o, "n4-arc", Build::Load, o.q(4097, 16385), Deep::Clone);
    deep::<SKey, SVal, U4>(o, "n4", Build::Asc, o.q(700, 2800), Deep::Clone);
    deep::<SKey, SVal, Tree64<Shared>>(o, "tree64", Build::Load, o.q(2200, 4160), Deep::Clone);
    deep::<SKey, SVal, Tree64<SyncShared>>(o, "tree64", Build::Asc, o.q(700, 2200), Deep::Clone);
}

// ---- P12 ----------------------------------------------------------------------------------

fn p12(o: &mut Out) {
    fn one<K: KeyT, V: ValT, C: TreeConfig<K, V> + 'static>(o: &mut Out, tag: &str) {
        let (b, l) = (branch_size::<K, V, C>(), leaf_size::<K, V, C>());
        let two = l * b + 1;
        pre::<K, V, C>(o, tag, Build::Load, two, Thin::None, vec![vec![Ins, Rem, Get, GetLin, Entry], vec![Ins, Rem]][..o.q(1, 2)].to_vec());
        pre::<K, V, C>(o, tag, Build::Asc, l * b / 2 + l, Thin::GapUp, vec![vec![Ins, Rem, GetMut]]);
        pre::<K, V, C>(o, tag, Build::Load, l * b, Thin::Notch(1, 1), vec![vec![Ins, Rem]]);
        pre::<K, V, C>(o, tag, Build::Desc, l * b / 2 + l, Thin::None, vec![vec![Ins, InsRec, Rem, RangeMut]]);
        pre::<K, V, C>(o, tag, Build::RecZig, l * b / 2 + l, Thin::None, vec![vec![InsRec, Ins], vec![InsRec, Rem]]);
        pre::<K, V, C>(o, tag, Build::Zig, o.q(l + 2, l * 2 + 2), Thin::None, vec![vec![Range, RangeBack]]);
        hist::<K, V, C>(o, tag, [rep(&[Ins], l + 1 - o.q(1, 0)), rep(&[Rem], 1)].concat()[o.q(2, 1)..].to_vec());
        o.add(format!("{tag}/merge"), "two trees of up to 1 and leaf+2 symbolic keys merged in all 8 ways", move || {
            let how = choose(8);
            let a = prestate::<K, V, C>(Build::Load, choose(2), Thin::None);
            let n = choose(leaf_size::<K, V, C>() + 3);
            let b = prestate::<K, V, C>(Build::Asc, n, Thin::None);
            let s = merge(a, b, how);
            s.check_all();
            s.finish();
        });
        owned_sc::<K, V, C>(o, tag, Build::Load, two + 1, Thin::None, Walk::Alt, true);
        iter_sc::<K, V, C>(o, tag, Build::Asc, two + 1, Thin::None, Walk::Alt, 1);
        for how in 0..3 {
            methods_sc::<K, V, C>(o, tag, Build::Load, two + 1, Thin::None, how, None);
        }
        methods_sc::<K, V, C>(o, tag, Build::Asc, l + 1, Thin::None, 1, Some(Ends::One));
        clone_sc::<K, V, C>(o, tag, Build::Load, l + 1, Thin::None, false);
    }
    one::<SKey, SVal, C45<Unique>>(o, "b4-l5");
    one::<SKey, SVal, C54<Shared>>(o, "b5-l4-rc");
    one::<SKey, SVal, C55<SyncShared>>(o, "b5-l5-arc");
    one::<SKey, SVal, C46<Unique>>(o, "b4-l6");
    one::<SKey, SVal, C64<Shared>>(o, "b6-l4-rc");
    one::<SKey, SVal, C75<SyncShared>>(o, "b7-l5-arc");
    one::<SKey, SVal, C57<Unique>>(o, "b5-l7");
    one::<AKey, AVal, C44<Shared>>(o, "b4-l4-rc-align64");
    one::<AKey, SVal, C44<SyncShared>>(o, "b4-l4-arc-align64key");
    one::<SKey, AVal, C45<Unique>>(o, "b4-l5-align64val");
    one::<SKey, (), C44<Unique>>(o, "b4-l4-unit");
    one::<SKey, (), C44<Shared>>(o, "b4-l4-rc-unit");
    one::<CKey, BVal, C55<SyncShared>>(o, "b5-l5-arc-copy-72byte");
    one::<SKey, ZVal, C45<Unique>>(o, "b4-l5-counted-unit");
    one::<CKey, ZVal, C54<Shared>>(o, "b5-l4-rc-copy-counted-unit");
    one::<CKey, SVal, C44<SyncShared>>(o, "b4-l4-arc-copykey");
    // large and unusual node sizes
    fn large<C: TreeConfig<SKey, SVal> + 'static>(o: &mut Out, tag: &str) {
        let (b, l) = (branch_size::<SKey, SVal, C>(), leaf_size::<SKey, SVal, C>());
        for (bd, n) in [(Build::Load, l), (Build::Asc, l + 2), (Build::Load, l * b), (Build::Load, l * b + 1), (Build::Desc, l * 2 + 1), (Build::RecZig, l * 2 + 1), (Build::RecAsc, l * b / 2 + l)] {
            o.add(
                format!("{tag}/{bd:?}{n}-near"),
                format!("{n} keys built by {bd:?}; any single-key operation with a symbolic key anywhere near a chosen node boundary or end; contents checked in full"),
                move || {
                    let mut s = prestate::<SKey, SVal, C>(bd, n, Thin::None);
                    let spots = [0, l / 2, l, n / 2, n - n % l, n];
                    let k = near(&s.model, spots[choose(6)].min(n), 5);
                    match choose(10) {
                        0 => s.insert(k),
                        1 => s.insert_with(k, true),
                        2 => s.remove(k),
                        3 => s.get(k),
                        4 => s.get_linear(k),
                        5 => s.get_mut(k),
                        6 => s.entry(k, 7),
                        7 => s.walk(Bd::In(k), Bd::Un, Walk::Back, false),
                        8 => s.walk_mut(Bd::Ex(k), Bd::Un, Walk::Front, false),
                        _ => s.walk(Bd::Un, Bd::Ex(k), Walk::Alt, false),
                    }
                    s.check_all();
                    s.finish();
                },
            );
        }
        for n in [l * 2 + 1, l * b + 1] {
            o.add(format!("{tag}/all-{n}"), format!("{n} keys loaded, cloned, one copy emptied from a chosen end and refilled, the other consumed and abandoned at a chosen boundary"), move || {
                let mut s = prestate::<SKey, SVal, C>(Build::Load, n, Thin::None);
                s.check_all();
                let c = s.fork();
                s.walk_mut(Bd::Un, Bd::Un, Walk::Alt, true);
                c.check_iter();
                thin(&mut s, Thin::All);
                s.insert(fresh());
                s.check_all();
                s.done();
                consume(c, Walk::Alt, choose(2) == 1 && n < 40);
                check_clean();
            });
        }
    }
    large::<C10x12<Unique>>(o, "b10-l12");
    large::<C16x16<Shared>>(o, "b16-l16-rc");
    large::<C32x63<SyncShared>>(o, "b32-l63-arc");
    large::<C63x32<Unique>>(o, "b63-l32");
    large::<C65x128<Unique>>(o, "b65-l128");
    large::<C128x4<Unique>>(o, "b128-l4");
    large::<C129x5<Shared>>(o, "b129-l5-rc");
    large::<C4x255<Unique>>(o, "b4-l255");
    large::<C5x256<SyncShared>>(o, "b5-l256-arc");
    large::<C4x300<Unique>>(o, "b4-l300");
    large::<C260x4<Shared>>(o, "b260-l4-rc");
    /// Nodes of more entries than sixteen bits count.
    fn huge<C: TreeConfig<SKey, SVal> + 'static>(o: &mut Out, tag: &str, b: Build, n: usize) {
        o.add(format!("{tag}/{b:?}{n}-huge"), format!("{n} keys built by {b:?}, a node with more than 65536 entries among the nodes; one operation with a symbolic key near a chosen position; contents checked in full"), move || {
            let mut s = prestate::<SKey, SVal, C>(b, n, Thin::None);
            let spots = [n, 65_536];
            let k = near(&s.model, spots[choose(2)], 1);
            match choose(3) {
                0 => s.insert(k),
                1 => s.remove(k),
                _ => s.get_mut(k),
            }
            s.check_all();
            s.finish();
        });
    }
    huge::<C4x100000<Unique>>(o, "b4-l100000", Build::Asc, 65_540);
    huge::<C4x100000<SyncShared>>(o, "b4-l100000-arc", Build::Load, 100_010);
    huge::<C100000x4<Unique>>(o, "b100000-l4", Build::Load, 4 * 65_540);
    fn unit_key<V: ValT, C: TreeConfig<ZVal, V> + 'static>(o: &mut Out, tag: &str, n: usize) {
        o.add(format!("{tag}/unit-key-{n}"), format!("keys of a zero-sized type (all equal, releases counted), {n} operations of every kind, then cloned and consumed"), move || {
            let mut s = Sys::<ZVal, V, C>::new();
            for _ in 0..n {
                match choose(9) {
                    0 => s.insert(0),
                    1 => s.remove(0),
                    2 => s.get(0),
                    3 => s.entry(0, 7),
                    4 => s.insert_with(0, true),
                    5 => s.remove_low(),
                    6 => s.remove_high(),
                    7 => s.walk(Bd::In(0), Bd::In(0), Walk::Alt, false),
                    _ => s.walk_mut(Bd::Un, Bd::Un, Walk::Back, true),
                }
            }
            s.check_all();
            let c = s.fork();
            c.check_all();
            consume(s, Walk::Alt, false);
            c.finish();
        });
    }
    unit_key::<SVal, C44<Unique>>(o, "b4-l4", o.q(3, 4));
    unit_key::<ZVal, C45<Shared>>(o, "b4-l5-rc-counted-unit", o.q(3, 4));
    if o.thorough {
        one::<SKey, SVal, C66<SyncShared>>(o, "b6-l6-arc");
        one::<SKey, SVal, C77<Shared>>(o, "b7-l7-rc");
        one::<SKey, SVal, C88<Unique>>(o, "b8-l8");
        one::<SKey, SVal, C49<Shared>>(o, "b4-l9-rc");
        one::<SKey, SVal, C77<Unique>>(o, "b7-l7");
        one::<AKey, (), C57<SyncShared>>(o, "b5-l7-arc-align64-unit");
    }
}

// ---- P13 ----------------------------------------------------------------------------------

/// Records what is fed to a hasher, so that the hashes of two trees can be compared as terms.
#[derive(Default)]
struct Rec(Vec<(u8, Term)>);
impl Hasher for Rec {
    fn finish(&self) -> u64 {
        0
    }
    fn write(&mut self, b: &[u8]) {
        let _g = crate::alloc::Set::to(false);
        for &x in b {
            self.0.push((1, x as i64))
        }
    }
    fn write_usize(&mut self, v: usize) {
        let _g = crate::alloc::Set::to(false);
        self.0.push((2, v as i64))
    }
    fn write_i64(&mut self, v: i64) {
        let _g = crate::alloc::Set::to(false);
        self.0.push((3, v))
    }
}
/// Lexicographic order of two reference lists; values are symbolic here.
fn lex(a: &Model, b: &Model) -> std::cmp::Ordering {
    use std::cmp::Ordering::*;
    for i in 0..a.len().min(b.len()) {
        for (x, y) in [(a[i].0, b[i].0), (a[i].1, b[i].1)] {
            match cmp(x, y) {
                Equal => {}
                o => return o,
            }
        }
    }
    a.len().cmp(&b.len())
}
fn compare_all<C: TreeConfig<SKey, SVal> + 'static>(a: &Sys<SKey, SVal, C>, b: &Sys<SKey, SVal, C>) {
    use std::cmp::Ordering::*;
    let (x, y) = (&a.tree, &b.tree);
    let order = choose(2);
    let (eq, ne, c, pc, lt, le, gt, ge);
    if order == 0 {
        eq = call(|| x == y);
        ne = call(|| x != y);
        c = call(|| x.cmp(y));
        pc = call(|| x.partial_cmp(y));
    } else {
        pc = call(|| x.partial_cmp(y));
        c = call(|| x.cmp(y));
        ne = call(|| x != y);
        eq = call(|| x == y);
    }
    lt = call(|| x < y);
    le = call(|| x <= y);
    gt = call(|| x > y);
    ge = call(|| x >= y);
    let want = lex(&a.model, &b.model);
    trace!("{} vs {}: eq {eq} cmp {c:?} partial {pc:?}", show_model(&a.model), show_model(&b.model));
    check!(eq == (want == Equal), "== is {eq}, contents compare {want:?}");
    check!(ne == !eq, "!= does not negate ==");
    check!(c == want, "cmp is {c:?}, contents compare {want:?}");
    check!(pc == Some(want), "partial_cmp is {pc:?}, contents compare {want:?}");
    check!(lt == (want == Less) && le == (want != Greater) && gt == (want == Greater) && ge == (want != Less), "operators disagree with {want:?}");
    let rev = call(|| y.cmp(x));
    check!(rev == want.reverse(), "cmp is not antisymmetric");
    if eq {
        reach("equal");
        let (mut h1, mut h2) = (Rec::default(), Rec::default());
        call(|| x.hash(&mut h1));
        call(|| y.hash(&mut h2));
        check!(h1.0.len() == h2.0.len(), "equal trees feed different amounts to a hasher");
        for (p, q) in h1.0.iter().zip(&h2.0) {
            check!(p.0 == q.0, "equal trees hash differently");
            if p.0 == 3 {
                eng().must_eq(p.1, q.1);
            } else {
                check!(p.1 == q.1, "equal trees hash differently");
            }
        }
    } else {
        reach("different");
    }
    let i = call(|| x.cmp(x));
    check!(i == Equal, "a tree does not equal itself");
}
fn p13(o: &mut Out) {
    fn mk<C: TreeConfig<SKey, SVal> + 'static>(b: Build, keys: &[Term], vals: &[Term]) -> Sys<SKey, SVal, C> {
        let mut s = build::<SKey, SVal, C>(b, keys);
        for (i, &v) in vals.iter().enumerate() {
            let k = keys[i];
            let t = &mut s.tree;
            call(|| *t.get_mut(&SKey::mk(k)).unwrap() = SVal::mk(v));
            s.model[i].1 = v;
        }
        s
    }
    let n = o.q(3, 4);
    let sc = o.add("n4/compare-small", format!("two trees of up to {n} entries each, keys and values symbolic in every relation; ==, !=, cmp, partial_cmp, <, <=, >, >=, hash"), move || {
        let (na, nb) = (choose(n + 1), choose(n + 1));
        let (ka, kb) = (chain(na), chain(nb));
        let va: Vec<Term> = (0..na).map(|_| fresh()).collect();
        let vb: Vec<Term> = (0..nb).map(|_| fresh()).collect();
        let a = mk::<U4>(Build::Load, &ka, &va);
        let b = mk::<U4>(Build::Desc, &kb, &vb);
        compare_all(&a, &b);
        a.finish2(b);
    });
    sc.labels = vec!["equal", "different"];
    // same keys, one value or one key symbolic, different histories
    fn hist2<C: TreeConfig<SKey, SVal> + 'static>(o: &mut Out, tag: &str, n: usize, ba: Build, bb: Build, t: Thin) {
        let sc = o.add(
            format!("{tag}/compare-{ba:?}-{bb:?}-{n}-{t:?}"),
            format!("{n} symbolic keys; one tree built by {ba:?} and thinned by {t:?}, the other built from what is left by {bb:?}, one of its values and one additional or missing key symbolic"),
            move || {
                let mut a = prestate::<SKey, SVal, C>(ba, n, t);
                let keys: Vec<Term> = a.model.iter().map(|e| e.0).collect();
                let mut vals: Vec<Term> = a.model.iter().map(|e| e.1).collect();
                let which = choose(3);
                if which == 1 && !vals.is_empty() {
                    let i = choose(vals.len());
                    vals[i] = fresh();
                }
                let mut b = mk::<C>(bb, &keys, &vals);
                if which == 2 {
                    if choose(2) == 0 {
                        b.insert(fresh())
                    } else {
                        b.remove(fresh())
                    }
                }
                if which == 0 {
                    // equal by construction: also print alike
                    let p = |s: &Sys<SKey, SVal, C>| {
                        let t = &s.tree;
                        [call(|| format!("{t:?}")), call(|| format!("{t:#?}")), call(|| format!("{:?}", t.iter())), call(|| format!("{:?}", t.range(..)))]
                    };
                    let (x, y) = (p(&a), p(&b));
                    check!(x == y, "equal trees print as {:?} and {:?}", x, y);
                    for e in &a.model {
                        check!(x[0].contains(&show(e.0)), "printed tree lacks key {}", show(e.0));
                    }
                    let (mut h1, mut h2) = (std::collections::hash_map::DefaultHasher::new(), std::collections::hash_map::DefaultHasher::new());
                    call(|| a.tree.hash(&mut h1));
                    call(|| b.tree.hash(&mut h2));
                    check!(h1.finish() == h2.finish(), "equal trees hash differently");
                    reach("printed");
                    call(move || drop((x, y)));
                }
                compare_all(&a, &b);
                a.check_all();
                if choose(2) == 0 {
                    a.insert(fresh());
                    let (x, y) = (&a.tree, &b.tree);
                    let eq = call(|| x == y);
                    let want = lex(&a.model, &b.model) == std::cmp::Ordering::Equal;
                    check!(eq == want, "== is {eq} after an insertion");
                }
                a.finish2(b);
            },
        );
        sc.labels = vec!["equal", "different", "printed"];
    }
    hist2::<U4>(o, "n4", 5, Build::Asc, Build::Load, Thin::GapUp);
    hist2::<U4>(o, "n4", o.q(6, 8), Build::Load, Build::Desc, Thin::Mask);
    hist2::<U4>(o, "n4", 18, Build::Load, Build::Asc, Thin::None);
    hist2::<U4>(o, "n4", 14, Build::Zig, Build::Load, Thin::None);
    hist2::<U4>(o, "n4", o.q(20, 40), Build::Load, Build::Load, o.keep());
    hist2::<U4>(o, "n4", 18, Build::Load, Build::Load, Thin::All);
    hist2::<U4>(o, "n4-tall", o.q(44, 68), Build::Asc, Build::Load, Thin::None);
    hist2::<U4>(o, "n4-tall", o.q(36, 68), Build::Load, Build::Mid, Thin::None);
    hist2::<Tree64<Unique>>(o, "tree64", o.q(66, 200), Build::Load, Build::Asc, Thin::None);
    hist2::<U4>(o, "n4", o.q(8, 12), Build::Asc, Build::Load, Thin::Notch(1, 1));
    hist2::<C55<Unique>>(o, "n5", 12, Build::Asc, Build::Load, Thin::None);
    fn prefix<C: TreeConfig<SKey, SVal> + 'static>(o: &mut Out, tag: &str, n: usize, ba: Build, bb: Build) {
        o.add(
            format!("{tag}/compare-prefix-{ba:?}-{bb:?}-{n}"),
            format!("{n} symbolic keys; one tree holds the first i of them, the other the first j (every i, j near every node boundary), in one of them a value or an extra key is symbolic or all keys from a chosen one on were removed again"),
            move || {
                let keys = chain(n);
                let vals: Vec<Term> = (0..n as i64).map(out_there).collect();
                let l = leaf_size::<SKey, SVal, C>();
                let mut at: Vec<usize> = (0..=n).filter(|i| *i < 3 || i % l < 2 || i % l == l - 1 || *i == n).collect();
                at.dedup();
                let i = at[choose(at.len())];
                let near: Vec<usize> = at.iter().copied().filter(|&j| j + l + 1 >= i && j <= i + l + 1 || j == n || j == 0).collect();
                let j = near[choose(near.len())];
                let a = mk::<C>(ba, &keys[..i], &vals[..i]);
                let mut b = mk::<C>(bb, &keys[..j], &vals[..j]);
                match choose(3) {
                    0 => {}
                    1 => b.insert(fresh()),
                    _ => {
                        let m = at[choose(at.len())].min(j);
                        for x in m..j {
                            b.remove(keys[x]);
                        }
                    }
                }
                compare_all(&a, &b);
                a.finish2(b);
            },
        );
    }
    prefix::<U4>(o, "n4", o.q(13, 34), Build::Load, Build::Asc);
    prefix::<U4>(o, "n4", o.q(13, 34), Build::Desc, Build::Load);
    prefix::<Tree64<Unique>>(o, "tree64", o.q(66, 130), Build::Load, Build::Asc);
    hist2::<S4>(o, "n4-rc", 9, Build::Asc, Build::Load, Thin::None);
    hist2::<A4>(o, "n4-arc", 9, Build::Asc, Build::Load, Thin::None);
    // three trees: transitivity through the model order is implied by cmp == lex; check it directly once
    o.add("n4/compare-three", "three trees of up to 2 entries with symbolic keys and values: cmp is transitive", || {
        let mut v = Vec::new();
        for _ in 0..3 {
            let n = choose(3);
            let k = chain(n);
            let vals: Vec<Term> = (0..n).map(|_| if n == 1 { fresh() } else { 0 }).collect();
            v.push(mk::<U4>(Build::Load, &k, &vals));
        }
        let ab = call(|| v[0].tree.cmp(&v[1].tree));
        let bc = call(|| v[1].tree.cmp(&v[2].tree));
        if ab == bc {
            let ac = call(|| v[0].tree.cmp(&v[2].tree));
            check!(ac == ab, "cmp is not transitive");
        }
        for s in v {
            s.done();
        }
        check_clean();
    });
}

// ---- P15 ----------------------------------------------------------------------------------

struct Src {
    items: Vec<(Term, u32)>,
    at: usize,
    pulled: std::rc::Rc<std::cell::Cell<usize>>,
    after_end: std::rc::Rc<std::cell::Cell<usize>>,
}
impl Iterator for Src {
    type Item = (SKey, u32);
    fn next(&mut self) -> Option<(SKey, u32)> {
        if self.at < self.items.len() {
            let (t, id) = self.items[self.at];
            self.at += 1;
            self.pulled.set(self.at);
            Some((SKey::mk(t), id))
        } else {
            self.after_end.set(self.after_end.get() + 1);
            None
        }
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        (self.items.len() - self.at, Some(self.items.len() - self.at))
    }
}
fn p15(o: &mut Out) {
    fn run(na: usize, nb: usize, mode: usize, stop: bool, method: bool) {
        use std::{cell::Cell, cmp::Ordering::*, rc::Rc};
        let (ka, kb) = (chain(na), chain(nb));
        let (pa, pb) = (Rc::new(Cell::new(0)), Rc::new(Cell::new(0)));
        let (ea, eb) = (Rc::new(Cell::new(0)), Rc::new(Cell::new(0)));
        let a = Src { items: ka.iter().enumerate().map(|(i, &t)| (t, i as u32)).collect(), at: 0, pulled: pa.clone(), after_end: ea };
        let b = Src { items: kb.iter().enumerate().map(|(i, &t)| (t, 1000 + i as u32)).collect(), at: 0, pulled: pb.clone(), after_end: eb };
        // expected result
        let mut want: Vec<u32> = Vec::new();
        let mut used: Vec<(usize, usize)> = vec![(0, 0)]; // inputs used up after j items
        let (mut i, mut j) = (0, 0);
        let prefer_left = mode == 0 || mode == 2;
        while i < na || j < nb {
            let c = if i == na {
                Greater
            } else if j == nb {
                Less
            } else {
                cmp(ka[i], kb[j])
            };
            match c {
                Less => {
                    want.push(i as u32);
                    i += 1
                }
                Greater => {
                    want.push(1000 + j as u32);
                    j += 1
                }
                Equal => {
                    if mode == 2 {
                        // no pairing: both are yielded, the left one first
                        want.push(i as u32);
                        i += 1;
                        used.push((i, j));
                        want.push(1000 + j as u32);
                        j += 1;
                    } else {
                        want.push(if prefer_left { i as u32 } else { 1000 + j as u32 });
                        i += 1;
                        j += 1
                    }
                }
            }
            used.push((i, j));
        }
        trace!("merge {} {} mode {mode}: expect {:?}", na, nb, want);
        let gt = |l: &(SKey, u32), r: &(SKey, u32)| l.0 > r.0;
        let ge = |l: &(SKey, u32), r: &(SKey, u32)| l.0 >= r.0;
        let eq = |l: &(SKey, u32), r: &(SKey, u32)| l.0 == r.0;
        let never = |_: &(SKey, u32), _: &(SKey, u32)| false;
        fn drive<I: Iterator<Item = (SKey, u32)>>(mut it: I, want: &[u32], used: &[(usize, usize)], pulled: (&Cell<usize>, &Cell<usize>), stop: usize, method: bool) {
            for (n, w) in want.iter().enumerate().take(stop) {
                let g = call(|| it.next()).map(|e| e.1);
                check!(g == Some(*w), "step {n} yielded {:?}, expected {}", g, w);
                // one look-ahead element per input, plus a discarded one of the pair in look-ahead
                let (ua, ub) = used[n + 1];
                let slack = 2;
                check!(pulled.0.get() <= ua + slack && pulled.1.get() <= ub + slack, "inputs read ahead: {} {} after using {ua} {ub}", pulled.0.get(), pulled.1.get());
            }
            if method {
                let left = &want[stop.min(want.len())..];
                let n = left.len();
                let (l, h) = call(|| it.size_hint());
                check!(l <= n && h.map_or(true, |h| n <= h), "size_hint ({l}, {h:?}) with {n} elements left");
                let m = choose(9);
                let j = choose(n + 1);
                trace!("after {stop} steps, method {m} with {j}");
                let mut got: Vec<u32> = Vec::with_capacity(64);
                let expect: Vec<u32> = match m {
                    0 => {
                        got.extend(call(|| it.nth(j)).map(|e| e.1));
                        while let Some(e) = call(|| it.next()) {
                            got.push(e.1);
                        }
                        left[j..].to_vec()
                    }
                    1 => {
                        got.extend(call(|| it.last()).map(|e| e.1));
                        left.last().copied().into_iter().collect()
                    }
                    2 => {
                        let c = call(|| it.count());
                        check!(c == n, "count() = {c} with {n} elements left");
                        vec![]
                    }
                    3 => {
                        let c = call(|| {
                            it.fold(0, |c, e| {
                                got.push(e.1);
                                c + 1
                            })
                        });
                        check!(c == n, "fold visited {c} elements, {n} left");
                        left.to_vec()
                    }
                    4 => {
                        call(|| it.for_each(|e| got.push(e.1)));
                        left.to_vec()
                    }
                    5 => {
                        call(|| {
                            let v: Vec<_> = it.collect();
                            got.extend(v.iter().map(|e| e.1));
                        });
                        left.to_vec()
                    }
                    6 => {
                        call(|| it.skip(j).for_each(|e| got.push(e.1)));
                        left[j..].to_vec()
                    }
                    7 => {
                        call(|| it.step_by(j + 1).for_each(|e| got.push(e.1)));
                        left.iter().copied().step_by(j + 1).collect()
                    }
                    _ => {
                        let mut i = 0;
                        got.extend(
                            call(|| {
                                it.find(|_| {
                                    i += 1;
                                    i > j
                                })
                            })
                            .map(|e| e.1),
                        );
                        while let Some(e) = call(|| it.next()) {
                            got.push(e.1);
                        }
                        left[j..].to_vec()
                    }
                };
                check!(got == expect, "method {m} gave {:?}, expected {:?}", got, expect);
                return;
            }
            if stop >= want.len() {
                for _ in 0..3 {
                    let g = call(|| it.next()).map(|e| e.1);
                    check!(g.is_none(), "yielded {:?} after the end", g);
                }
            }
            call(|| drop(it));
        }
        let n = if stop { choose(want.len() + 1) } else { usize::MAX };
        match mode {
            0 => drive(call(|| MergeIter::merge(a, b, gt, eq)), &want, &used, (&pa, &pb), n, method),
            1 => drive(call(|| MergeIter::merge(a, b, ge, eq)), &want, &used, (&pa, &pb), n, method),
            _ => drive(call(|| MergeIter::merge(a, b, gt, never)), &want, &used, (&pa, &pb), n, method),
        }
        let l = live_instances();
        check!(l == 0, "{l} merged elements never released");
    }
    let n = o.q(5, 6);
    o.add("merge-iter", format!("two ascending inputs of up to {n} symbolic elements in every relation; left-preferring, right-preferring, and without pairing"), move || {
        let mode = choose(3);
        run(choose(n + 1), choose(n + 1), mode, false, false)
    });
    o.add("merge-iter-abandon", "as above with up to 4 and 3 elements, dropped after a chosen number of steps", || {
        let mode = choose(3);
        run(choose(5), choose(4), mode, true, false)
    });
    let m = o.q(3, 4);
    o.add("merge-iter-methods", format!("as above with up to {m} elements each, and after a chosen number of steps each of 9 standard iterator methods"), move || {
        let mode = choose(3);
        run(choose(m + 1), choose(m + 1), mode, true, true)
    });
    o.add("merge-iter-skewed", "inputs of up to 30 and up to 2 symbolic elements, both ways round", || {
        let mode = choose(3);
        let (a, b) = (choose(31), choose(3));
        if choose(2) == 0 {
            run(a, b, mode, false, false)
        } else {
            run(b, a, mode, false, false)
        }
    });
    o.add("merge-iter-unbounded", "an unbounded input against up to 5 symbolic elements: the first 9 results do not need more than they use", || {
        let n = choose(6);
        let k = chain(n);
        let kk = k.clone();
        let swap = choose(2) == 1;
        let limit = std::rc::Rc::new(std::cell::Cell::new(0));
        let l2 = limit.clone();
        let inf = (0i64..).map(move |i| {
            l2.set(i);
            (SKey::mk(i * 16), i as u32)
        });
        let fin = kk.into_iter().map(|t| (SKey::mk(t), 1000u32));
        let gt = |l: &(SKey, u32), r: &(SKey, u32)| l.0 > r.0;
        let eq = |l: &(SKey, u32), r: &(SKey, u32)| l.0 == r.0;
        let mut prev: Option<Term> = None;
        let mut step = |g: Option<(SKey, u32)>| {
            let g = g.unwrap_or_else(|| violation("ended although an input is unbounded"));
            let t = g.0.term();
            if let Some(p) = prev {
                check!(cmp(p, t) == std::cmp::Ordering::Less, "not ascending");
            }
            prev = Some(t);
        };
        if swap {
            let mut it = MergeIter::merge(fin, inf, gt, eq);
            for _ in 0..9 {
                step(call(|| it.next()));
            }
        } else {
            let mut it = MergeIter::merge(inf, fin, gt, eq);
            for _ in 0..9 {
                step(call(|| it.next()));
            }
        }
        check!(limit.get() <= 12, "read {} elements ahead", limit.get());
    });
}

// ---- P16 ----------------------------------------------------------------------------------

fn p16(o: &mut Out) {
    type T = U4;
    hist::<SKey, SVal, T>(o, "n4", rep(&[InsRec], o.q(6, 7)));
    hist::<SKey, SVal, T>(o, "n4", rep(&[InsRec, Ins, Rem], o.q(4, 5)));
    hist::<SKey, SVal, T>(o, "n4", rep(&[InsRec, GetLin, RemLow], o.q(4, 5)));
    hist::<SKey, SVal, C55<Unique>>(o, "n5", rep(&[InsRec], o.q(6, 7)));
    for (b, n) in [(Build::RecAsc, 14), (Build::RecDesc, 14), (Build::RecZig, 15), (Build::Load, 18), (Build::Asc, 14), (Build::Mid, 15)] {
        pre::<SKey, SVal, T>(o, "n4", b, n, Thin::Gap, vec![vec![InsRec, GetLin]]);
        pre::<SKey, SVal, T>(o, "n4", b, o.q(n - 7, n), Thin::GapUp, vec![vec![InsRec], vec![InsRec, Ins, Rem, GetLin]]);
    }
    for (b, n) in [(Build::Load, 16), (Build::Load, 18), (Build::RecAsc, 12), (Build::RecDesc, 12)] {
        pre::<SKey, SVal, T>(o, "n4", b, n, Thin::NotchRec(1, if n == 18 { o.q(1, 2) } else { 2 }), vec![vec![InsRec], vec![InsRec, Ins, GetLin]][..if n == 16 { o.q(1, 2) } else { 2 }].to_vec());
        pre::<SKey, SVal, T>(o, "n4", b, n, Thin::NotchRec(1, 2), vec![vec![Ins], vec![GetLin]][..if n == 16 { o.q(1, 2) } else { 2 }].to_vec());
        pre::<SKey, SVal, T>(o, "n4", b, n, Thin::NotchRec(3, 3), vec![vec![InsRec, Rem, GetLin]]);
        pre::<SKey, SVal, T>(o, "n4", b, n, Thin::NotchRec(2, 3), vec![vec![Ins, GetMut]]);
    }
    pre::<SKey, SVal, T>(o, "n4", Build::Load, o.q(10, 16), Thin::NotchRec(1, 3), vec![vec![Range]]);
    pre::<SKey, SVal, T>(o, "n4-tall", Build::Load, 64, Thin::NotchRec(o.q(1, 3), o.q(1, 3)), vec![vec![InsRec, GetLin, Ins]]);
    pre::<SKey, SVal, T>(o, "n4-tall", Build::RecAsc, 42, Thin::NotchRec(o.q(1, 3), o.q(1, 3)), vec![vec![InsRec, GetLin, Ins]]);
    // full nodes on every level
    for (b, n) in [(Build::Load, 16), (Build::Load, 64), (Build::Load, 65), (Build::Load, 128), (Build::RecAsc, 60), (Build::RecDesc, 46), (Build::RecZig, 60)] {
        let two = vec![vec![InsRec], vec![InsRec, Ins, Rem]];
        pre::<SKey, SVal, T>(o, "n4-tall", b, n, Thin::None, two[..if n < 20 { 2 } else { o.q(1, 2) }].to_vec());
    }
    pre::<SKey, SVal, T>(o, "n4", Build::Load, 68, o.keep(), vec![vec![InsRec, GetLin]]);
    for n in [3, 6, 18, o.q(21, 66)] {
        pre::<SKey, SVal, T>(o, "n4", Build::Load, n, Thin::All, vec![vec![InsRec], vec![InsRec, Ins, Rem]]);
        pre::<SKey, SVal, T>(o, "n4", Build::Load, n, Thin::Ends, vec![vec![InsRec, GetLin]]);
    }
    pre::<SKey, SVal, T>(o, "n4", Build::RecAsc, 13, Thin::None, vec![vec![Range, RangeBack]]);
    pre::<SKey, SVal, T>(o, "n4", Build::RecZig, 13, Thin::None, vec![vec![Range, RangeMut]]);
    pre::<SKey, SVal, T>(o, "n4", Build::Load, o.q(7, 12), Thin::Mask, vec![vec![InsRec, GetLin], vec![InsRec]]);
    pre_upto::<SKey, SVal, T>(o, "n4", Build::RecAsc, o.q(40, 90), Thin::None, vec![vec![InsRec, GetLin, Rem]]);
    pre_upto::<SKey, SVal, C55<Unique>>(o, "n5", Build::RecDesc, o.q(40, 90), Thin::None, vec![vec![InsRec, GetLin, Rem]]);
    pre::<SKey, SVal, S4>(o, "n4-rc", Build::RecAsc, 14, Thin::GapUp, vec![vec![InsRec, GetLin]]);
    pre::<SKey, SVal, A4>(o, "n4-arc", Build::RecAsc, 14, Thin::GapUp, vec![vec![InsRec, GetLin]]);
    pre::<SKey, SVal, Tree64<Unique>>(o, "tree64", Build::RecAsc, 130, Thin::None, vec![vec![InsRec, GetLin]]);
    pre::<SKey, SVal, Tree64<Unique>>(o, "tree64", Build::Load, 4096, Thin::None, vec![vec![InsRec]]);
    for (b, n) in [(Build::Load, 256), (Build::Load, o.q(4097, 16385)), (Build::RecAsc, o.q(700, 2800)), (Build::Desc, o.q(700, 2800))] {
        deep::<SKey, SVal, T>(o, "n4", b, n, Deep::WriteRec);
    }
    deep::<SKey, SVal, Tree64<Unique>>(o, "tree64", Build::Load, 4096, Deep::WriteRec);
    deep::<SKey, SVal, Tree64<Unique>>(o, "tree64", Build::RecAsc, o.q(2200, 4160), Deep::WriteRec);
    height(o, Build::RecAsc, "recursive insertion or linear lookup", |s, k, _| match choose(2) {
        0 => s.insert_with(k, true),
        _ => s.get_linear(k),
    });
}

// ---- P17 / P18 ----------------------------------------------------------------------------

const RISK: usize = 36;
/// Whether an operation can only read the tree.
fn reading(op: usize) -> bool {
    (16..22).contains(&op) || op == 35
}
/// Keys above (1..) and below (..-1) every other, for orderings that ignore what they stand for.
fn out_there(i: i64) -> Term {
    i * 1_000_000
}
/// The same as symbolic keys, where the operation uses them.
fn beyond(op: usize, m: &Model) -> (Vec<Term>, Vec<Term>) {
    match op {
        22 | 26 | 27 => {
            let h = chain(6);
            if let Some(e) = m.last() {
                eng().assume_lt(e.0, h[0]);
            }
            (h, vec![])
        }
        23 => {
            let l = chain(6);
            if let Some(e) = m.first() {
                eng().assume_lt(l[5], e.0);
            }
            (vec![], l)
        }
        _ => (vec![], vec![]),
    }
}
/// Without panics or arbitrary answers.
fn calm<T>(f: impl FnOnce() -> T) -> T {
    let armed = std::mem::replace(&mut eng().fault_armed, false);
    let chaos = std::mem::replace(&mut eng().chaos, false);
    let x = f();
    eng().fault_armed = armed;
    eng().chaos = chaos;
    x
}
/// One operation of any kind on a tree, errors of any sort allowed; nothing is compared.
/// Returns whether the operation can only read the tree.
fn risky<K: KeyT, V: ValT, C: TreeConfig<K, V> + 'static>(t: &mut PalmTree<K, V, C>, op: usize, k: Term, k2: Term, far: &dyn Fn(i64) -> Term) -> bool {
    let v = || V::mk(7);
    let other = || -> PalmTree<K, V, C> {
        let mut o = PalmTree::new();
        o.insert(K::mk(k), V::mk(8));
        o.insert(K::mk(k2), V::mk(9));
        o
    };
    match op {
        0 => {
            t.insert(K::mk(k), v());
        }
        1 => {
            t.remove(&K::mk(k));
        }
        2 => {
            t.insert_recursive(K::mk(k), v());
        }
        3 => {
            if let Some(x) = t.get_mut(&K::mk(k)) {
                *x = v();
            }
        }
        4 => match t.entry(K::mk(k)) {
            palmtree::Entry::Vacant(e) => {
                e.insert(v());
            }
            palmtree::Entry::Occupied(e) => {
                e.remove_entry();
            }
        },
        5 => {
            t.remove_lowest();
        }
        6 => {
            t.remove_highest();
        }
        7 => {
            for (_, x) in t.iter_mut() {
                *x = v();
            }
        }
        8 => {
            let mut it = t.range_mut(K::mk(k)..);
            for i in 0..40 {
                match if i % 3 == 0 { it.next_back() } else { it.next() } {
                    Some((_, x)) => *x = v(),
                    None => break,
                }
            }
        }
        9 => {
            let c = t.clone();
            drop(c);
        }
        10 => {
            let mut c = t.clone();
            c.insert(K::mk(k), v());
            c.remove_lowest();
        }
        11 => {
            let o = other();
            t.append_left(o);
        }
        12 => {
            let o = other();
            t.append_right(o);
        }
        13 => {
            let c = std::mem::take(t);
            *t = PalmTree::merge_left(other(), c);
        }
        14 => {
            let c = std::mem::take(t);
            let mut n = 0;
            let mut it = c.into_iter();
            loop {
                n += 1;
                if if n % 2 == 0 { it.next_back() } else { it.next() }.is_none() {
                    break;
                }
            }
        }
        15 => {
            t.extend(vec![(K::mk(k), v()), (K::mk(k2), v())]);
        }
        22 => {
            // a partner of several leaves whose keys start among those of the tree
            let o: PalmTree<K, V, C> = calm(|| (0..7).map(|i| (K::mk(if i == 0 { k } else { far(i) }), v())).collect());
            t.append_right(o);
        }
        23 => {
            let o: PalmTree<K, V, C> = calm(|| (0..7).map(|i| (K::mk(if i == 6 { k } else { far(i - 7) }), v())).collect());
            t.append_left(o);
        }
        24 => {
            let c = std::mem::take(t);
            *t = PalmTree::merge_right(c, other());
        }
        25 => {
            let c = std::mem::take(t);
            let mut it = c.into_iter();
            it.next();
            it.next_back();
            it.next_back();
        }
        26 => {
            t.extend((0..4).map(|i| {
                user_callback();
                (K::mk(if i == 0 { k } else { far(i) }), v())
            }));
        }
        27 => {
            let o: PalmTree<K, V, C> = calm(|| (0..4).map(|i| (K::mk(if i == 0 { k } else { far(i) }), v())).collect());
            let c = std::mem::take(t);
            let mut it = PalmTree::merge_left_iter(c, o);
            for _ in 0..6 {
                it.next();
            }
        }
        28 => {
            drop(std::mem::take(t));
        }
        29 => {
            let mut c = t.clone();
            std::mem::swap(t, &mut c);
            t.remove_highest();
            t.insert(K::mk(k), v());
            drop(c);
        }
        // the standard iterator methods
        30 => {
            let mut it = std::mem::take(t).into_iter();
            it.next();
            it.next_back();
            it.count();
        }
        31 => {
            let mut it = std::mem::take(t).into_iter();
            it.nth(2);
            it.nth_back(1);
            it.last();
        }
        32 => {
            t.iter_mut().for_each(|(_, x)| *x = v());
            t.range_mut(K::mk(k)..).rev().for_each(|(_, x)| *x = v());
        }
        33 => std::mem::take(t).into_iter().for_each(drop),
        34 => {
            let mut it = std::mem::take(t).into_iter();
            it.next();
            it.rev().fold((), |_, x| drop(x));
        }
        // reading operations
        35 => {
            let mut it = t.iter();
            it.nth(1);
            it.nth_back(2);
            it.fold((), |_, _| ());
            t.iter().rev().for_each(drop);
            t.range(K::mk(k)..).last();
            t.range(..K::mk(k)).max();
            t.iter().count();
            return true;
        }
        16 => {
            t.get(&K::mk(k));
            t.get_linear(&K::mk(k2));
            return true;
        }
        17 => {
            let mut it = t.iter();
            for i in 0..60 {
                if if i % 3 == 0 { it.next_back() } else { it.next() }.is_none() {
                    break;
                }
            }
            return true;
        }
        18 => {
            let it = t.range(K::mk(k)..K::mk(k2));
            for _ in it {}
            return true;
        }
        19 => {
            let it = t.range((std::ops::Bound::Excluded(K::mk(k)), std::ops::Bound::Included(K::mk(k2))));
            for _ in it.rev() {}
            return true;
        }
        20 => {
            let e = t.entry(K::mk(k));
            drop(e);
            return true;
        }
        _ => {
            let c = &*t;
            let _ = c == c;
            let _ = c.cmp(c);
            return true;
        }
    }
    false
}
/// Use whatever a disturbed operation left behind.
fn aftermath<K: KeyT, V: ValT, C: TreeConfig<K, V> + 'static>(t: &mut PalmTree<K, V, C>, keys: &[Term]) {
    let mut n = 0;
    for (k, v) in t.iter() {
        k.term();
        v.term();
        n += 1;
        if n > 500 {
            violation("iteration over a disturbed tree does not end");
        }
    }
    for (k, v) in t.iter().rev() {
        k.term();
        v.term();
        n += 1;
        if n > 1000 {
            violation("iteration over a disturbed tree does not end");
        }
    }
    for &k in keys {
        if let Some(v) = t.get(&K::mk(k)) {
            v.term();
        }
    }
    if let Some(&k) = keys.get(keys.len() / 2) {
        for (k, v) in t.range(K::mk(k)..) {
            k.term();
            v.term();
        }
    }
}
fn fault_sc<K: KeyT, V: ValT, C: TreeConfig<K, V> + 'static>(o: &mut Out, tag: &str, b: Build, n: usize, t: Thin, shared: bool, again: bool) {
    let sc = o.add(
        format!("{tag}/{b:?}{n}-{t:?}-fault{}{}", if shared { "-cloned" } else { "" }, if again { "-again" } else { "" }),
        format!("{n} symbolic keys built by {b:?}, thinned by {t:?}{}; one of {RISK} kinds of operation with symbolic keys, a panic injected at any one comparison, clone, destruction or source item of it; then searched, iterated{} and dropped", if shared { ", a clone alive" } else { "" }, if again { ", used for another operation" } else { "" }),
        move || {
            let s = prestate::<K, V, C>(b, n, t);
            let (mut tree, mut model) = (s.tree, s.model);
            let keep = if shared { Some(call(|| tree.clone())) } else { None };
            let op = choose(RISK);
            let reads = reading(op);
            let (k, k2) = (fresh(), fresh());
            let (hi, lo) = beyond(op, &model);
            let far = |i: i64| if i > 0 { hi[i as usize - 1] } else { lo[(i + 7) as usize] };
            trace!("operation {op} keys {} {}", show(k), show(k2));
            eng().fault_armed = true;
            let r = catch(|| call(|| risky(&mut tree, op, k, k2, &far)));
            eng().fault_armed = false;
            let fired = std::mem::replace(&mut eng().fault_fired, false);
            trace!("-> {:?} injected {}", r, fired);
            if fired {
                reach("injected");
            } else if r.is_err() && !(op == 18 || op == 19) {
                violation(&format!("panicked without an injected fault: {:?}", r));
            }
            let keys: Vec<Term> = model.iter().map(|e| e.0).collect();
            call(|| aftermath(&mut tree, &keys));
            if reads {
                reach("reader");
                let s = Sys::<K, V, C>::from_parts(tree, model);
                s.check_all();
                tree = s.tree;
                model = s.model;
            }
            if again && fired {
                // the tree may be logically damaged, so this may panic, but nothing worse
                let k = fresh();
                let op = [0, 1, 2, 5, 6, 7, 14][choose(7)];
                let r = catch(|| call(|| risky(&mut tree, op, k, k, &out_there)));
                trace!("then operation {op} key {} -> {:?}", show(k), r);
                call(|| aftermath(&mut tree, &keys));
            }
            if let Some(c) = keep {
                let s = Sys::<K, V, C>::from_parts(c, model);
                s.check_all();
                s.done();
            }
            call(|| drop(tree));
        },
    );
    sc.labels = vec!["injected"];
}
fn p17(o: &mut Out) {
    let l = Build::Load;
    fault_sc::<SKey, SVal, U4>(o, "n4", l, 0, Thin::None, false, false);
    fault_sc::<SKey, SVal, U4>(o, "n4", l, o.q(3, 5), Thin::None, false, true);
    fault_sc::<SKey, SVal, U4>(o, "n4", l, 5, Thin::None, false, false);
    fault_sc::<SKey, SVal, U4>(o, "n4", l, 16, Thin::None, false, false);
    fault_sc::<SKey, SVal, U4>(o, "n4", Build::Asc, 11, Thin::None, false, false);
    fault_sc::<SKey, SVal, U4>(o, "n4", l, 18, o.q(Thin::None, Thin::KeepTwo), false, false);
    fault_sc::<SKey, SVal, U4>(o, "n4", l, 18, Thin::All, false, false);
    fault_sc::<SKey, SVal, S4>(o, "n4-rc", l, o.q(5, 17), Thin::None, true, false);
    fault_sc::<SKey, SVal, A4>(o, "n4-arc", l, o.q(5, 17), Thin::None, true, false);
    fault_sc::<SKey, SVal, C55<Unique>>(o, "n5", l, 5, Thin::None, false, false);
    fault_sc::<SKey, SVal, U4>(o, "n4", l, 33, Thin::None, false, false);
    fault_sc::<SKey, SVal, U4>(o, "n4", Build::Asc, o.q(8, 11), Thin::GapUp, false, false);
    fault_sc::<SKey, SVal, U4>(o, "n4", Build::Asc, o.q(8, 12), o.q(Thin::Notch(1, 1), Thin::Notch(2, 2)), false, false);
    fault_sc::<SKey, SVal, S4>(o, "n4-rc", l, 18, Thin::None, true, false);
    if o.thorough {
        fault_sc::<SKey, SVal, U4>(o, "n4", l, 65, Thin::None, false, false);
        fault_sc::<SKey, SVal, Tree64<Unique>>(o, "tree64", l, 66, Thin::None, false, false);
        fault_sc::<SKey, SVal, U4>(o, "n4", l, 8, Thin::None, false, true);
        fault_sc::<SKey, SVal, S4>(o, "n4-rc", l, 4, Thin::None, true, true);
    }
    // loading and collecting
    for how in [0usize, 2] {
        let n = o.q(6, 18);
        let sc = o.add(
            format!("n4/{}-fault", HOW[how]),
            format!("{} of up to {n} symbolic keys with a panic injected at any comparison, clone, destruction, or in the source iterator", HOW[how]),
            move || {
                let n = choose(n + 1);
                let pairs: Model = chain(n).into_iter().map(|k| (k, new_val())).collect();
                eng().fault_armed = true;
                let r = catch(|| {
                    call(|| {
                        let it = pairs.iter().map(|p| {
                            user_callback();
                            (SKey::mk(p.0), SVal::mk(p.1))
                        });
                        if how == 0 {
                            PalmTree::<SKey, SVal, U4>::load(it)
                        } else {
                            it.collect()
                        }
                    })
                });
                eng().fault_armed = false;
                let fired = std::mem::replace(&mut eng().fault_fired, false);
                match r {
                    Ok(t) => {
                        let s = Sys::from_parts(t, pairs);
                        s.check_all();
                        s.finish();
                    }
                    Err(m) => {
                        check!(fired, "panicked without an injected fault: {m}");
                        reach("injected");
                    }
                }
            },
        );
        sc.labels = vec!["injected"];
    }
}

fn chaos_sc<K: KeyT, V: ValT, C: TreeConfig<K, V> + 'static>(o: &mut Out, tag: &str, b: Build, n: usize, t: Thin, ops: &'static [usize], budget: u32) {
    o.add(
        format!("{tag}/{b:?}{n}-{t:?}-chaos{budget}-{}", ops.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(".")),
        format!("{n} keys built by {b:?}, thinned by {t:?}; then two operations of kinds {ops:?}, the first {budget} comparisons of which answer arbitrarily; then iterated, searched and dropped"),
        move || {
            let s = prestate::<K, V, C>(b, n, t);
            let mut tree = s.tree;
            let keys: Vec<Term> = s.model.iter().map(|e| e.0).collect();
            let (k, k2) = (fresh(), fresh());
            eng().chaos = true;
            eng().chaos_budget = budget;
            for _ in 0..2 {
                let op = ops[choose(ops.len())];
                let r = catch(|| call(|| risky(&mut tree, op, k, k2, &out_there)));
                trace!("operation {op} -> {:?}", r);
                if r.is_err() {
                    reach("panicked");
                }
            }
            let r = catch(|| call(|| aftermath(&mut tree, &keys)));
            trace!("aftermath -> {:?}", r);
            eng().chaos = false;
            call(|| drop(tree));
        },
    );
}
fn p18(o: &mut Out) {
    let l = Build::Load;
    const W: &[usize] = &[0, 1, 2, 4];
    const R: &[usize] = &[7, 8, 17, 18, 19, 20];
    const I: &[usize] = &[0, 30, 31, 32, 34, 35];
    const X: &[usize] = &[0, 3, 5, 6, 14];
    const M: &[usize] = &[11, 12, 13, 15];
    const N: &[usize] = &[22, 23, 24, 25, 26, 27];
    const C: &[usize] = &[2, 8, 9, 10, 16, 21, 29];
    for (n, t, q) in [(0, Thin::None, 6), (4, Thin::None, 8), (5, Thin::None, 7), (16, Thin::None, 7), (18, Thin::All, 6), (65, Thin::None, 7)] {
        let q = q + o.q(0, 2);
        chaos_sc::<SKey, SVal, U4>(o, "n4", l, n, t, W, q);
        chaos_sc::<SKey, SVal, U4>(o, "n4", l, n, t, R, q - 1);
        chaos_sc::<SKey, SVal, U4>(o, "n4", l, n, t, X, q - 1);
        chaos_sc::<SKey, SVal, U4>(o, "n4", l, n, t, I, q - 2);
        chaos_sc::<SKey, SVal, U4>(o, "n4", l, n, t, M, q - 1);
        chaos_sc::<SKey, SVal, U4>(o, "n4", l, n, t, N, q - 2);
        chaos_sc::<SKey, SVal, U4>(o, "n4", l, n, t, C, q - 1);
    }
    for t in [Thin::GapUp, Thin::Notch(3, 3)] {
        chaos_sc::<SKey, SVal, U4>(o, "n4", Build::Asc, 12, t, W, o.q(4, 6));
        chaos_sc::<SKey, SVal, U4>(o, "n4", Build::Asc, 12, t, R, o.q(4, 6));
    }
    for b in [Build::Asc, Build::Desc] {
        chaos_sc::<SKey, SVal, U4>(o, "n4-tall", b, 44, Thin::None, W, o.q(6, 8));
    }
    chaos_sc::<SKey, SVal, Tree64<Unique>>(o, "tree64", l, 130, Thin::None, W, o.q(7, 9));
    chaos_sc::<SKey, SVal, Tree64<Unique>>(o, "tree64", l, 130, Thin::None, R, o.q(6, 8));
    chaos_sc::<SKey, SVal, U4>(o, "n4", Build::Asc, 11, Thin::None, W, o.q(7, 9));
    chaos_sc::<SKey, SVal, U4>(o, "n4", l, 18, o.keep(), W, o.q(3, 5));
    chaos_sc::<SKey, SVal, C55<Shared>>(o, "n5-rc", l, 5, Thin::None, W, o.q(7, 9));
    chaos_sc::<SKey, SVal, A4>(o, "n4-arc", l, 5, Thin::None, W, o.q(7, 9));
    chaos_sc::<SKey, SVal, A4>(o, "n4-arc", l, 5, Thin::None, M, o.q(6, 8));
    let n = o.q(8, 10);
    o.add("n4/history-chaos", format!("insertions and removals from the empty tree, the first {n} comparisons arbitrary"), move || {
        let mut tree: PalmTree<SKey, SVal, U4> = call(PalmTree::new);
        eng().chaos = true;
        eng().chaos_budget = n;
        for i in 0..6 {
            let op = if i < 3 { 0 } else { [0, 1, 2][choose(3)] };
            let k = i as i64 * 10;
            let r = catch(|| call(|| risky(&mut tree, op, k, k, &out_there)));
            trace!("operation {op} key {k} -> {:?}", r);
        }
        let r = catch(|| call(|| aftermath(&mut tree, &[0, 10, 20])));
        trace!("aftermath -> {:?}", r);
        eng().chaos = false;
        call(|| drop(tree));
    });
}

// ---- P21 ----------------------------------------------------------------------------------

/// What may be cloned by one use of a tree.
#[derive(Clone, Copy)]
struct Spend {
    keys: bool,
    values: u64,
}
/// Run `f` and hold the clones it makes against an allowance.
fn spend<R>(what: &str, max: Spend, f: impl FnOnce() -> R) -> R {
    let a = copies();
    let r = f();
    let b = copies();
    trace!("  cloned {} keys, {} values", b[0] - a[0], b[1] - a[1]);
    check!(b[1] - a[1] <= max.values, "{what} cloned {} values, at most {} are shared", b[1] - a[1], max.values);
    check!(max.keys || b[0] == a[0], "{what} cloned {} keys", b[0] - a[0]);
    r
}
/// Any way of looking at a tree.
fn look<K: KeyT, V: ValT, C: TreeConfig<K, V> + 'static>(s: &Sys<K, V, C>, how: usize) {
    let t = &s.tree;
    match how {
        0 => s.get(fresh()),
        1 => s.get_linear(fresh()),
        2 => s.walk(Bd::Un, Bd::Un, Walk::Alt, true),
        3 => s.walk(Bd::In(fresh()), Bd::Un, Walk::Back, false),
        4 => s.walk(Bd::Un, Bd::Ex(fresh()), Walk::Front, false),
        5 => s.walk_cloned_at(choose(s.len().min(2) + 1), choose(3)),
        6 => {
            check!(call(|| t == t && t <= t && t.cmp(t) == std::cmp::Ordering::Equal), "a tree differs from itself");
        }
        7 => {
            let mut h = std::collections::hash_map::DefaultHasher::new();
            call(|| t.hash(&mut h));
            let _ = call(|| format!("{t:?}"));
        }
        8 => {
            check!(call(|| t.len()) == s.len() && call(|| t.is_empty()) == (s.len() == 0), "wrong length");
        }
        _ => s.check_all(),
    }
}
/// Any way of changing a tree, or using it up.
fn change<K: KeyT, V: ValT, C: TreeConfig<K, V> + 'static>(mut s: Sys<K, V, C>, how: usize, what: &str, values: u64) -> Option<Sys<K, V, C>> {
    let refs = Spend { keys: values > 0, values };
    let any = Spend { keys: true, values };
    match how {
        0 => spend(what, any, || s.insert(fresh())),
        1 => spend(what, any, || s.insert_with(fresh(), true)),
        2 => spend(what, any, || s.remove(fresh())),
        3 => spend(what, any, || s.remove_low()),
        4 => spend(what, any, || s.remove_high()),
        5 => spend(what, refs, || s.get_mut(fresh())),
        6 => spend(what, refs, || s.index(fresh())),
        7 => spend(what, any, || s.entry(fresh(), 7)),
        8 => spend(what, refs, || s.walk_mut(Bd::Un, Bd::Un, Walk::Alt, true)),
        9 => spend(what, refs, || s.walk_mut(Bd::In(fresh()), Bd::Un, Walk::Back, false)),
        10 => spend(what, refs, || s.walk_mut(Bd::Un, Bd::Ex(fresh()), Walk::Front, false)),
        11 => {
            spend(what, refs, || consume(s, Walk::Turn, false));
            return None;
        }
        12 => {
            spend(what, refs, || consume(s, Walk::Alt, true));
            return None;
        }
        13 | 14 => {
            let mut o = Sys::<K, V, C>::new();
            o.insert(fresh());
            let how2 = choose(8);
            s = spend(what, any, || if how == 13 { merge(s, o, how2) } else { merge(o, s, how2) });
        }
        15 => {
            let k = fresh();
            let v = new_val();
            let t = &mut s.tree;
            spend(what, any, || call(|| t.extend(vec![(K::mk(k), V::mk(v))])));
            match find(&s.model, k) {
                Ok(i) => s.model[i].1 = V::canon(v),
                Err(i) => s.model.insert(i, (k, V::canon(v))),
            }
        }
        16 => {
            spend(what, Spend { keys: false, values: 0 }, || s.done());
            return None;
        }
        _ => {
            spend(what, refs, || consume(s, Walk::Alt, false));
            return None;
        }
    }
    Some(s)
}
const CHANGES: usize = 17;
fn thrift_sc<K: KeyT, V: ValT, C: TreeConfig<K, V> + 'static>(o: &mut Out, tag: &str, b: Build, n: usize, t: Thin, shares: bool) {
    o.add(
        format!("{tag}/{b:?}{n}-{t:?}-alone"),
        format!("{n} symbolic keys built by {b:?}, thinned by {t:?}, no clone alive; looked at, or changed and then looked at, in every way"),
        move || {
            let s = spend("building a tree", Spend { keys: true, values: 0 }, || prestate::<K, V, C>(b, n, t));
            let none = Spend { keys: false, values: 0 };
            let how = choose(CHANGES + 10);
            if how >= CHANGES {
                spend("looking at a tree", none, || look(&s, how - CHANGES));
                return s.finish();
            }
            if let Some(s) = change(s, how, "changing an unshared tree", 0) {
                spend("looking at a tree", none, || s.check_iter());
                s.finish();
            } else {
                check_clean();
            }
        },
    );
    o.add(
        format!("{tag}/{b:?}{n}-{t:?}-shared"),
        format!("{n} symbolic keys built by {b:?}, thinned by {t:?}, cloned; looked at, or one of the two changed, then changed again, then the other changed"),
        move || {
            let mut s = prestate::<K, V, C>(b, n, t);
            let m = s.len() as u64;
            let mut c = spend("cloning a tree", Spend { keys: !shares, values: if shares { 0 } else { m } }, || s.fork());
            if choose(2) == 1 {
                std::mem::swap(&mut s, &mut c);
            }
            let how = choose(CHANGES + 10);
            if how >= CHANGES {
                spend("looking at a shared tree", Spend { keys: false, values: 0 }, || look(&s, how - CHANGES));
                s.done();
                if let Some(c) = change(c, [0, 8][choose(2)], "changing a tree whose clone is gone", 0) {
                    c.finish();
                }
                return;
            }
            let before = copies()[1];
            let r = change(s, how, "changing a shared tree", if shares { m } else { 0 });
            let made = copies()[1] - before;
            // between them the two trees hold m values more than one tree: no more need ever be copied
            let owed = if shares { m - made } else { 0 };
            if let Some(s) = r {
                let before = copies()[1];
                let s = change(s, [3, 8, 17][choose(3)], "changing a tree that has its own copy", owed);
                let made = copies()[1] - before;
                let c = change(c, if made > 0 { 8 } else { 4 }, "changing the other tree", owed - made);
                for x in [s, c].into_iter().flatten() {
                    x.check_iter();
                    x.done();
                }
            } else if let Some(c) = change(c, [3, 8, 17][choose(3)], "changing the remaining tree", 0) {
                c.check_iter();
                c.done();
            }
            check_clean();
        },
    );
}
/// The standard iterator methods clone nothing of an unshared tree.
fn thrift_methods<K: KeyT, V: ValT, C: TreeConfig<K, V> + 'static>(o: &mut Out, tag: &str, b: Build, n: usize, t: Thin) {
    o.add(
        format!("{tag}/{b:?}{n}-{t:?}-methods"),
        format!("{n} symbolic keys built by {b:?}, thinned by {t:?}, no clone alive; iterated by shared or mutable reference, over a range, or consumed, with each of 16 standard iterator methods after some steps"),
        move || {
            let mut s = prestate::<K, V, C>(b, n, t);
            let none = Spend { keys: false, values: 0 };
            let how = choose(4);
            let x = if how == 3 { Bd::Ex(fresh()) } else { Bd::Un };
            match how {
                0 => spend("iterating", none, || s.adapt(x, x, true)),
                1 => spend("iterating mutably", none, || s.adapt_mut(x, x, true)),
                3 => spend("iterating over a range", none, || s.adapt(x, Bd::Un, false)),
                _ => {
                    let Sys { tree, model } = s;
                    spend("consuming", none, || rest(call(|| tree.into_iter()), &model, |(k, v)| (k.term(), v.term()), "consuming iterator"));
                    return check_clean();
                }
            }
            s.finish();
        },
    );
}
/// Trees of every size, with inner nodes filled to every degree on the right edge.
fn thrift_sizes<K: KeyT, V: ValT, C: TreeConfig<K, V> + 'static>(o: &mut Out, tag: &str, b: Build, hi: usize, shares: bool) {
    o.add(
        format!("{tag}/{b:?}-sizes"),
        format!("any number up to {hi} of symbolic keys built by {b:?}; cloned or not, then changed, then the clone changed"),
        move || {
            let n = choose(hi + 1);
            let mut s = spend("building a tree", Spend { keys: true, values: 0 }, || prestate::<K, V, C>(b, n, Thin::None));
            let m = s.len() as u64;
            let how = [0, 2, 3, 4, 8, 17][choose(6)];
            if choose(2) == 0 {
                if let Some(s) = change(s, how, "changing an unshared tree", 0) {
                    s.finish();
                }
                return;
            }
            let c = spend("cloning a tree", Spend { keys: !shares, values: if shares { 0 } else { m } }, || s.fork());
            if how < 3 {
                // where a key goes is a matter of the unshared tree
                spend("looking at a shared tree", Spend { keys: false, values: 0 }, || look(&s, 8));
                s.done();
                s = c;
                if let Some(s) = change(s, 8, "changing a tree whose clone is gone", 0) {
                    s.finish();
                }
                return;
            }
            let before = copies()[1];
            let r = change(s, how, "changing a shared tree", if shares { m } else { 0 });
            let made = copies()[1] - before;
            let c = change(c, [4, 8, 17][choose(3)], "changing the other tree", if !shares || r.is_none() { 0 } else { m - made });
            for x in [r, c].into_iter().flatten() {
                x.check_iter();
                x.done();
            }
            check_clean();
        },
    );
}
fn p21(o: &mut Out) {
    fn one<C: TreeConfig<SKey, SVal> + 'static>(o: &mut Out, tag: &str, shares: bool) {
        for (b, n, t) in [
            (Build::Load, 0, Thin::None),
            (Build::Load, 3, Thin::None),
            (Build::Load, 5, Thin::None),
            (Build::Load, 16, Thin::None),
            (Build::Asc, 13, Thin::None),
            (Build::Desc, 12, Thin::None),
            (Build::Load, 17, Thin::All),
            (Build::Load, o.q(6, 10), Thin::GapUp),
        ] {
            thrift_sc::<SKey, SVal, C>(o, tag, b, n, t, shares);
        }
    }
    one::<U4>(o, "n4", false);
    one::<S4>(o, "n4-rc", true);
    one::<A4>(o, "n4-arc", true);
    for b in [Build::Load, Build::Asc, Build::Desc] {
        thrift_sizes::<SKey, SVal, U4>(o, "n4", b, o.q(34, 70), false);
        thrift_sizes::<SKey, SVal, S4>(o, "n4-rc", b, o.q(70, 140), true);
    }
    thrift_sizes::<SKey, SVal, A4>(o, "n4-arc", Build::RecAsc, o.q(34, 70), true);
    thrift_methods::<SKey, SVal, U4>(o, "n4", Build::Load, o.q(9, 14), Thin::None);
    thrift_methods::<SKey, SVal, U4>(o, "n4", Build::Asc, o.q(7, 11), Thin::GapUp);
    thrift_methods::<SKey, SVal, S4>(o, "n4-rc", Build::Load, o.q(9, 14), Thin::None);
    thrift_methods::<SKey, SVal, A4>(o, "n4-arc", Build::Load, o.q(9, 14), Thin::None);
    thrift_sc::<SKey, SVal, S4>(o, "n4-rc-tall", Build::Load, o.q(33, 66), Thin::None, true);
    thrift_sc::<SKey, SVal, A4>(o, "n4-arc", Build::RecAsc, o.q(12, 16), Thin::None, true);
    thrift_sc::<SKey, SVal, C55<Shared>>(o, "n5-rc", Build::Load, 26, Thin::None, true);
    thrift_sc::<AKey, AVal, C44<Shared>>(o, "n4-rc-align64", Build::Load, 6, Thin::None, true);
    thrift_sc::<SKey, SVal, Tree64<Unique>>(o, "tree64", Build::Load, o.q(66, 130), Thin::None, false);
    thrift_sc::<SKey, SVal, Tree64<Shared>>(o, "tree64-rc", Build::Asc, o.q(66, 130), Thin::None, true);
    thrift_sc::<SKey, SVal, Tree64<SyncShared>>(o, "tree64-arc", Build::Load, 65, Thin::None, true);
}

pub fn scenarios(prop: &str, tier: &str) -> Vec<Scen> {
    let mut o = Out { v: Vec::new(), thorough: tier == "thorough" };
    match prop {
        #[cfg(any(feature = "all", feature = "p01"))]
        "P01" => p01(&mut o),
        #[cfg(any(feature = "all", feature = "p02"))]
        "P02" => p02(&mut o),
        #[cfg(any(feature = "all", feature = "p03"))]
        "P03" => p03(&mut o),
        #[cfg(any(feature = "all", feature = "p04"))]
        "P04" => p04(&mut o),
        #[cfg(any(feature = "all", feature = "p05"))]
        "P05" => p05(&mut o),
        #[cfg(any(feature = "all", feature = "p06"))]
        "P06" => p06(&mut o),
        #[cfg(any(feature = "all", feature = "p07"))]
        "P07" => p07(&mut o),
        #[cfg(any(feature = "all", feature = "p08"))]
        "P08" => p08(&mut o),
        #[cfg(any(feature = "all", feature = "p09"))]
        "P09" => p09(&mut o),
        #[cfg(any(feature = "all", feature = "p10"))]
        "P10" => p10(&mut o),
        #[cfg(any(feature = "all", feature = "p11"))]
        "P11" => p11(&mut o),
        #[cfg(any(feature = "all", feature = "p12"))]
        "P12" => p12(&mut o),
        #[cfg(any(feature = "all", feature = "p13"))]
        "P13" => p13(&mut o),
        #[cfg(any(feature = "all", feature = "p15"))]
        "P15" => p15(&mut o),
        #[cfg(any(feature = "all", feature = "p16"))]
        "P16" => p16(&mut o),
        #[cfg(any(feature = "all", feature = "p17"))]
        "P17" => p17(&mut o),
        #[cfg(any(feature = "all", feature = "p18"))]
        "P18" => p18(&mut o),
        #[cfg(any(feature = "all", feature = "p21"))]
        "P21" => p21(&mut o),
        _ => {}
    }
    o.v
}
