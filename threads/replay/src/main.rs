//! replay N KEPT SHARED "op:key,op:key|op:key": the operations of a counterexample in real threads.
//!
//! Run under Miri, which reports data races and misuse of memory in whatever schedule it picks; the
//! results of every operation are compared with those of a BTreeMap. Keys of the tree are 10, 20, ...
//! N*10 unless given as a list after N, e.g. 3=4,9,11.
use palmtree::{Entry, PalmTree, SyncShared, TreeConfig};
use std::collections::BTreeMap;
use typenum::{U4, U5};

struct Cfg;
impl<K, V> TreeConfig<K, V> for Cfg {
    type BranchSize = U5;
    type LeafSize = U4;
    type PointerKind = SyncShared;
}
type T = PalmTree<i64, Box<u64>, Cfg>;
type B = BTreeMap<i64, u64>;

fn un(x: Option<Box<u64>>) -> Option<u64> {
    x.map(|v| *v)
}
fn un2(x: Option<(i64, Box<u64>)>) -> Option<(i64, u64)> {
    x.map(|(k, v)| (k, *v))
}
fn same<X: PartialEq + std::fmt::Debug>(what: &str, a: X, b: X) {
    if a != b {
        println!("REPRODUCED: {what} gave {a:?}, a tree of its own would give {b:?}");
        std::process::exit(1);
    }
}
fn all(t: &T) -> Vec<(i64, u64)> {
    t.iter().map(|(k, v)| (*k, **v)).collect()
}
fn model(b: &B) -> Vec<(i64, u64)> {
    b.iter().map(|(k, v)| (*k, *v)).collect()
}

fn read(t: &T, b: &B, op: &str, k: i64, n: u64) {
    match op {
        "get" => same(op, t.get(&k).map(|v| **v), b.get(&k).copied()),
        "iter" => same(op, all(t), model(b)),
        "iter_back" => same(op, t.iter().rev().map(|(k, v)| (*k, **v)).collect::<Vec<_>>(), b.iter().rev().map(|(k, v)| (*k, *v)).collect()),
        "range" => same(op, t.range(k..).map(|(k, v)| (*k, **v)).collect::<Vec<_>>(), b.range(k..).map(|(k, v)| (*k, *v)).collect()),
        "len" => same(op, t.len(), b.len()),
        "clone+append" => {
            // needs the handle itself
        }
        _ if op.starts_with("clone+") => {
            let (mut t2, mut b2) = (Some(t.clone()), b.clone());
            for (i, o) in op.split('+').skip(1).enumerate() {
                change(&mut t2, &mut b2, o, k, n * 10 + i as u64);
            }
        }
        _ => panic!("unknown operation {op}"),
    }
}

fn change(h: &mut Option<T>, b: &mut B, op: &str, k: i64, n: u64) {
    let Some(t) = h.as_mut() else { return };
    match op {
        "insert" => same(op, un(t.insert(k, Box::new(n))), b.insert(k, n)),
        "remove" => same(op, un2(t.remove(&k)), b.remove_entry(&k)),
        "remove_lowest" => same(op, un2(t.remove_lowest()), b.pop_first()),
        "remove_highest" => same(op, un2(t.remove_highest()), b.pop_last()),
        "write" => {
            let x = t.get_mut(&k).map(|v| *v = Box::new(n)).is_some();
            same(op, x, b.get_mut(&k).map(|v| *v = n).is_some())
        }
        "entry" => match t.entry(k) {
            Entry::Occupied(e) => same(op, Some(*e.remove()), b.remove(&k)),
            Entry::Vacant(e) => {
                e.insert(Box::new(n));
                same(op, None, b.insert(k, n))
            }
        },
        "rewrite" => {
            for (i, (_, v)) in t.iter_mut().enumerate() {
                *v = Box::new(n * 100 + i as u64);
            }
            for (i, (_, v)) in b.iter_mut().enumerate() {
                *v = n * 100 + i as u64;
            }
            same(op, all(t), model(b));
        }
        "drop" => {
            *h = None;
            b.clear()
        }
        "consume" | "consume1" => {
            let mut it = h.take().unwrap().into_iter();
            let mut got = Vec::new();
            let mut m = std::mem::take(b).into_iter();
            let mut want = Vec::new();
            for _ in 0..if op == "consume" { usize::MAX } else { 1 } {
                want.extend(m.next());
                match un2(it.next()) {
                    Some(x) => got.push(x),
                    None => break,
                }
            }
            got.extend(un2(it.next_back()));
            want.extend(m.next_back());
            same(op, got, want)
        }
        "clone+append" => {
            let t2 = t.clone();
            t.append_left(t2)
        }
        _ => read(t, b, op, k, n),
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let keys: Vec<i64> = a[1].split_once('=').map(|x| x.1.split(',').filter(|s| !s.is_empty()).map(|s| s.parse().unwrap()).collect()).unwrap_or_default();
    let kept: usize = a[2].parse().unwrap();
    let shared = a[3] == "1";
    let threads: Vec<Vec<(String, i64)>> = a[4].split('|').map(|t| t.split(',').filter(|s| !s.is_empty()).map(|o| o.split_once(':').map(|(x, k)| (x.to_string(), k.parse().unwrap())).unwrap()).collect()).collect();
    let b: B = keys.iter().enumerate().map(|(i, k)| (*k, 1000 + i as u64)).collect();
    let t = T::load(b.iter().map(|(k, v)| (*k, Box::new(*v))));
    if shared {
        std::thread::scope(|s| {
            for (i, ops) in threads.iter().enumerate() {
                let (t, b) = (&t, &b);
                s.spawn(move || {
                    for (j, (op, k)) in ops.iter().enumerate() {
                        read(t, b, op, *k, (i * 10 + j) as u64);
                    }
                });
            }
        });
        same("the tree afterwards", all(&t), model(&b));
        return;
    }
    let mut hs: Vec<(Option<T>, B)> = (1..threads.len() + kept).map(|_| (Some(t.clone()), b.clone())).collect();
    hs.insert(0, (Some(t), b));
    std::thread::scope(|s| {
        for (i, ((h, b), ops)) in hs.iter_mut().zip(&threads).enumerate() {
            s.spawn(move || {
                for (j, (op, k)) in ops.iter().enumerate() {
                    change(h, b, op, *k, (i * 10 + j) as u64);
                }
            });
        }
    });
    for (h, b) in &hs {
        if let Some(t) = h {
            same("the tree afterwards", all(t), model(b));
        }
    }
}
