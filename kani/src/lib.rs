//! Property P14: the three public pointer kinds, driven through every short history of the
//! `PointerKind` operations. Compiled by Kani, every choice and every stored value is symbolic and
//! CBMC decides the assertions and memory checks; compiled natively, the same body replays the
//! values of a counterexample.
use palmtree::PointerKind;

/// Source of nondeterministic values.
pub trait Nd {
    fn byte(&mut self) -> u8;
    fn word(&mut self) -> u32;
    /// A choice among n.
    fn pick(&mut self, n: u8) -> u8;
}
#[cfg(kani)]
pub struct Sym;
#[cfg(kani)]
impl Nd for Sym {
    fn byte(&mut self) -> u8 {
        kani::any()
    }
    fn word(&mut self) -> u32 {
        kani::any()
    }
    fn pick(&mut self, n: u8) -> u8 {
        let x: u8 = kani::any();
        kani::assume(x < n);
        x
    }
}
/// Recorded values, one byte string per request.
pub struct Rec(pub std::collections::VecDeque<Vec<u8>>);
impl Nd for Rec {
    fn byte(&mut self) -> u8 {
        self.0.pop_front().map(|v| v[0]).unwrap_or(0)
    }
    fn word(&mut self) -> u32 {
        self.0.pop_front().map(|v| u32::from_le_bytes(v[..4].try_into().unwrap())).unwrap_or(0)
    }
    fn pick(&mut self, n: u8) -> u8 {
        self.byte() % n
    }
}

const MAX: usize = 12;
static mut ALIVE: [bool; MAX] = [false; MAX];
static mut NEXT: usize = 0;

/// A pointee: built from and read back as one word.
pub trait Elem: Clone {
    fn mk(v: u32) -> Self;
    fn set(&mut self, v: u32);
    fn is(&self, v: u32) -> bool;
}
macro_rules! plain {
    ($t:ty, $mk:expr, $is:expr) => {
        impl Elem for $t {
            fn mk(v: u32) -> Self {
                ($mk)(v)
            }
            fn set(&mut self, v: u32) {
                *self = ($mk)(v)
            }
            fn is(&self, v: u32) -> bool {
                ($is)(self, v)
            }
        }
    };
}
plain!(u8, |v| v as u8, |s: &u8, v| *s == v as u8);
plain!(u64, |v| (v as u64) << 16 | 7, |s: &u64, v| *s == (v as u64) << 16 | 7);
plain!((), |_| (), |_: &(), _| true);
#[derive(Clone)]
pub struct Wide([u32; 9]);
plain!(Wide, |v| Wide([v, 1, 2, 3, 4, 5, 6, 7, v]), |s: &Wide, v| s.0[0] == v && s.0[8] == v && s.0[4] == 4);
#[derive(Clone)]
#[repr(align(64))]
pub struct Over(u32, u8);
plain!(Over, |v| Over(v, 9), |s: &Over, v| s.0 == v && s.1 == 9);

/// Holds a ticket that has to be handed back exactly once.
pub struct Owned {
    id: usize,
    v: u32,
}
impl Elem for Owned {
    fn mk(v: u32) -> Self {
        unsafe {
            let id = NEXT;
            NEXT += 1;
            ALIVE[id] = true;
            Owned { id, v }
        }
    }
    fn set(&mut self, v: u32) {
        self.v = v;
    }
    fn is(&self, v: u32) -> bool {
        unsafe { self.id < NEXT && ALIVE[self.id] && self.v == v }
    }
}
impl Clone for Owned {
    fn clone(&self) -> Self {
        assert!(self.is(self.v), "a released value was cloned");
        Owned::mk(self.v)
    }
}
impl Drop for Owned {
    fn drop(&mut self) {
        unsafe {
            assert!(self.id < NEXT && ALIVE[self.id], "a value was released twice");
            ALIVE[self.id] = false;
        }
    }
}
fn none_alive() -> bool {
    unsafe {
        let mut i = 0;
        while i < MAX {
            if ALIVE[i] {
                return false;
            }
            i += 1;
        }
    }
    true
}

const H: usize = 2;

fn check<P: PointerKind, A: Elem>(h: &[Option<P>; H], m: &[u32; H]) {
    let mut i = 0;
    while i < H {
        if let Some(p) = &h[i] {
            assert!(unsafe { p.deref::<A>() }.is(m[i]), "a handle reads something else than was stored through it");
        }
        i += 1;
    }
}

/// Every history of `steps` operations on up to three handles.
pub fn history<P: PointerKind, A: Elem>(n: &mut impl Nd, steps: usize) {
    unsafe {
        NEXT = 0;
        ALIVE = [false; MAX];
        let mut h: [Option<P>; H] = [const { None }; H];
        let mut m = [0u32; H];
        m[0] = n.word();
        h[0] = Some(P::new(A::mk(m[0])));
        check::<P, A>(&h, &m);
        let mut s = 0;
        while s < steps {
            s += 1;
            let op = n.pick(4);
            let i = n.pick(H as u8) as usize;
            if h[i].is_none() {
                continue;
            }
            match op {
                0 => {
                    let j = n.pick(H as u8) as usize;
                    if h[j].is_none() {
                        let c = h[i].as_ref().unwrap().clone::<A>();
                        h[j] = Some(c);
                        m[j] = m[i];
                    }
                }
                1 => {
                    let v = n.word();
                    let p = h[i].as_mut().unwrap();
                    let r = p.make_mut::<A>();
                    assert!(r.is(m[i]), "a mutable borrow does not see the value stored");
                    r.set(v);
                    m[i] = v;
                }
                2 => {
                    let p = h[i].take().unwrap();
                    let at: *const A = p.deref::<A>();
                    let raw = p.into_raw::<A>();
                    assert!(raw.as_ptr() as *const A == at, "the raw pointer is not the address of the value");
                    assert!((*raw.as_ptr()).is(m[i]), "the raw pointer does not lead to the value");
                    h[i] = Some(P::from_raw::<A>(raw));
                }
                _ => {
                    let mut p = h[i].take().unwrap();
                    p.drop_ptr::<A>();
                }
            }
            check::<P, A>(&h, &m);
        }
        // release what is left, from either end
        let up = n.pick(2) == 0;
        let mut k = 0;
        while k < H {
            let i = if up { k } else { H - 1 - k };
            if let Some(mut p) = h[i].take() {
                p.drop_ptr::<A>();
            }
            check::<P, A>(&h, &m);
            k += 1;
        }
        assert!(none_alive(), "a value was never released");
    }
}

macro_rules! harness {
    ($($name:ident: $p:ty, $a:ty, $n:expr, $u:expr;)*) => {
        #[cfg(kani)]
        mod proofs {
            use super::*;
            use palmtree::{Unique, Shared, SyncShared};
            $(
                #[kani::proof]
                #[kani::unwind($u)]
                fn $name() {
                    history::<$p, $a>(&mut Sym, $n)
                }
            )*
        }
        pub fn run(name: &str, n: &mut Rec) -> bool {
            use palmtree::{Unique, Shared, SyncShared};
            match name {
                $(stringify!($name) => history::<$p, $a>(n, $n),)*
                _ => return false,
            }
            true
        }
        pub const NAMES: &[&str] = &[$(stringify!($name)),*];
    };
}
harness! {
    q_unique_u8: Unique, u8, 2, 14;
    q_unique_wide: Unique, Wide, 2, 14;
    q_unique_over: Unique, Over, 2, 14;
    q_unique_owned: Unique, Owned, 3, 14;
    q_shared_u8: Shared, u8, 2, 14;
    q_shared_wide: Shared, Wide, 2, 14;
    q_shared_over: Shared, Over, 2, 14;
    q_shared_owned: Shared, Owned, 3, 14;
    q_sync_u8: SyncShared, u8, 2, 14;
    q_sync_wide: SyncShared, Wide, 2, 14;
    q_sync_over: SyncShared, Over, 2, 14;
    q_sync_owned: SyncShared, Owned, 3, 14;
    t_unique_unit: Unique, (), 3, 14;
    t_unique_u64: Unique, u64, 3, 14;
    t_unique_owned: Unique, Owned, 4, 14;
    t_shared_unit: Shared, (), 3, 14;
    t_shared_u64: Shared, u64, 3, 14;
    t_shared_over: Shared, Over, 3, 14;
    t_shared_owned: Shared, Owned, 4, 14;
    t_sync_unit: SyncShared, (), 3, 14;
    t_sync_u64: SyncShared, u64, 3, 14;
    t_sync_over: SyncShared, Over, 3, 14;
    t_sync_owned: SyncShared, Owned, 4, 14;
}
