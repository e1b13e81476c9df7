//! Symbolic key and value types with ownership tracking.
use crate::alloc::Set;
use crate::trace;
use crate::engine::{self, eng, violation, Term};
use std::cmp::Ordering;
use std::fmt;
use std::hash::{Hash, Hasher};

const ALIVE: u8 = 1;
const DEAD: u8 = 2;
static mut INST: Vec<u8> = Vec::new();
static mut LIVE: i64 = 0;
#[allow(static_mut_refs)]
fn inst() -> &'static mut Vec<u8> {
    unsafe { &mut INST }
}
pub fn live_instances() -> i64 {
    unsafe { LIVE }
}
pub fn reset_instances() {
    inst().clear();
    unsafe {
        COPIES = [0; 2];
        LIVE = 0;
        ZLIVE = 0
    }
}

/// One tracked instance of a term.
struct Tok {
    term: Term,
    id: u32,
    chk: u32,
}
fn chk(term: Term, id: u32) -> u32 {
    ((term as u64 ^ (id as u64) << 32).wrapping_mul(0x9E37_79B9_7F4A_7C15) >> 32) as u32 | 1
}
impl Tok {
    fn new(term: Term) -> Tok {
        let _g = Set::to(false);
        let id = inst().len() as u32;
        inst().push(ALIVE);
        unsafe { LIVE += 1 }
        Tok { term, id, chk: chk(term, id) }
    }
    #[inline]
    fn term(&self) -> Term {
        if self.chk != chk(self.term, self.id) || self.id as usize >= inst().len() {
            violation("use of an uninitialised, moved or released key or value (garbage bytes)");
        }
        if inst()[self.id as usize] != ALIVE {
            violation("use of a key or value after it was released");
        }
        self.term
    }
    fn release(&mut self) {
        if self.chk != chk(self.term, self.id) || self.id as usize >= inst().len() {
            violation("release of an uninitialised or already released key or value (garbage bytes)");
        }
        if inst()[self.id as usize] != ALIVE {
            violation("a key or value was released twice");
        }
        inst()[self.id as usize] = DEAD;
        unsafe { LIVE -= 1 }
    }
}

/// A point at which user code runs: with faults armed, it may panic here (once per path).
fn callback() {
    let e = eng();
    if e.fault_armed && !e.fault_fired && !std::thread::panicking() && e.choose(2) == 1 {
        e.fault_fired = true;
        trace!("  injected panic");
        std::panic::resume_unwind(Box::new(engine::Injected));
    }
}
pub fn user_callback() {
    let _g = Set::to(false);
    callback();
}
fn tcmp(a: Term, b: Term) -> Ordering {
    let _g = Set::to(false);
    callback();
    let e = eng();
    if e.chaos {
        if e.chaos_budget == 0 {
            return a.cmp(&b);
        }
        e.chaos_budget -= 1;
        let o = [Ordering::Less, Ordering::Equal, Ordering::Greater][e.choose(3)];
        trace!("  compare answers {:?}", o);
        return o;
    }
    e.cmp(a, b)
}

pub trait KeyT: Ord + Clone + fmt::Debug + Hash + 'static {
    const NAME: &'static str;
    fn mk(t: Term) -> Self;
    fn term(&self) -> Term;
}
pub trait ValT: Ord + Clone + fmt::Debug + Hash + 'static {
    const NAME: &'static str;
    fn mk(t: Term) -> Self;
    fn term(&self) -> Term;
    /// The term under which the model remembers this value (unit types forget it).
    fn canon(t: Term) -> Term {
        t
    }
}

/// Clones made of keys and of values since the path began.
static mut COPIES: [u64; 2] = [0; 2];
pub fn copies() -> [u64; 2] {
    unsafe { COPIES }
}

macro_rules! tracked {
    ($name:ident, $tr:ident, $n:expr, $s:expr, $(#[$m:meta])*) => {
        $(#[$m])*
        pub struct $name(Tok);
        impl $tr for $name {
            const NAME: &'static str = $s;
            fn mk(t: Term) -> Self { $name(Tok::new(t)) }
            fn term(&self) -> Term { self.0.term() }
        }
        impl Drop for $name { fn drop(&mut self) { self.0.release(); let _g = Set::to(false); callback(); } }
        impl Clone for $name {
            fn clone(&self) -> Self {
                let t = self.0.term();
                unsafe { COPIES[$n] += 1 }
                { let _g = Set::to(false); callback(); }
                $name(Tok::new(t))
            }
        }
        ordered!($name);
    };
}
macro_rules! ordered {
    ($name:ident) => {
        impl PartialEq for $name { fn eq(&self, o: &Self) -> bool { self.cmp(o) == Ordering::Equal } }
        impl Eq for $name {}
        impl PartialOrd for $name { fn partial_cmp(&self, o: &Self) -> Option<Ordering> { Some(self.cmp(o)) } }
        impl Ord for $name { fn cmp(&self, o: &Self) -> Ordering { tcmp(self.term(), o.term()) } }
        impl fmt::Debug for $name {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "{}", engine::show(self.term())) }
        }
        impl Hash for $name { fn hash<H: Hasher>(&self, h: &mut H) { h.write_i64(self.term()) } }
    };
}
tracked!(SKey, KeyT, 0, "key", );
tracked!(SVal, ValT, 1, "value", );
tracked!(AKey, KeyT, 0, "align64-key", #[repr(align(64))]);
tracked!(AVal, ValT, 1, "align64-value", #[repr(align(64))]);

/// Copyable, untracked.
#[derive(Clone, Copy)]
pub struct CKey(Term);
#[derive(Clone, Copy)]
pub struct CVal(Term);
macro_rules! plain {
    ($name:ident, $tr:ident, $s:expr) => {
        impl $tr for $name {
            const NAME: &'static str = $s;
            fn mk(t: Term) -> Self {
                $name(t)
            }
            fn term(&self) -> Term {
                self.0
            }
        }
        ordered!($name);
    };
}
plain!(CKey, KeyT, "copy-key");
plain!(CVal, ValT, "copy-value");

/// A large key: 9 words, untracked, with a pattern that detects partial copies.
#[derive(Clone)]
pub struct BVal([i64; 9]);
impl ValT for BVal {
    const NAME: &'static str = "72-byte-value";
    fn mk(t: Term) -> Self {
        BVal([t; 9])
    }
    fn term(&self) -> Term {
        if self.0.iter().any(|x| *x != self.0[0]) {
            violation("torn value");
        }
        self.0[0]
    }
}
ordered!(BVal);

impl ValT for () {
    const NAME: &'static str = "unit";
    fn mk(_: Term) {}
    fn term(&self) -> Term {
        0
    }
    fn canon(_: Term) -> Term {
        0
    }
}

/// Zero-sized, but created and released values are counted.
pub struct ZVal;
static mut ZLIVE: i64 = 0;
impl ZVal {
    fn count(d: i64) {
        unsafe {
            LIVE += d;
            ZLIVE += d;
            if ZLIVE < 0 {
                violation("more zero-sized values released than created");
            }
        }
    }
}
impl Clone for ZVal {
    fn clone(&self) -> Self {
        {
            let _g = Set::to(false);
            callback();
        }
        ZVal::count(1);
        ZVal
    }
}
impl Drop for ZVal {
    fn drop(&mut self) {
        ZVal::count(-1)
    }
}
impl ValT for ZVal {
    const NAME: &'static str = "counted-unit";
    fn mk(_: Term) -> Self {
        ZVal::count(1);
        ZVal
    }
    fn term(&self) -> Term {
        0
    }
    fn canon(_: Term) -> Term {
        0
    }
}
impl KeyT for ZVal {
    const NAME: &'static str = "counted-unit-key";
    fn mk(_: Term) -> Self {
        ZVal::count(1);
        ZVal
    }
    fn term(&self) -> Term {
        0
    }
}
impl PartialEq for ZVal {
    fn eq(&self, _: &Self) -> bool {
        true
    }
}
impl Eq for ZVal {}
impl PartialOrd for ZVal {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for ZVal {
    fn cmp(&self, _: &Self) -> Ordering {
        user_callback();
        Ordering::Equal
    }
}
impl fmt::Debug for ZVal {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "z")
    }
}
impl Hash for ZVal {
    fn hash<H: Hasher>(&self, h: &mut H) {
        h.write_u8(0)
    }
}
