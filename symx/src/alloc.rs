//! Global allocator under which memory errors of the code under test become deterministic
//! violations of the path that commits them: blocks allocated while it is switched on carry a
//! header and guard bytes, are filled before use, and stay in quarantine, filled, after release.
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicBool, Ordering::Relaxed};

pub struct Track;
static ON: AtomicBool = AtomicBool::new(false);
static mut EPOCH: u32 = 1;
static mut LIVE: usize = 0;
const QCAP: usize = 1 << 14;
const QBYTES: usize = 32 << 20;
static mut QUAR: [(usize, usize, usize); QCAP] = [(0, 0, 0); QCAP]; // pointer, size, align
static mut QLEN: usize = 0;
static mut QSUM: usize = 0;

const MAGIC: u64 = 0x6b1f_93d2_5ac7_e08d;
const GONE: u64 = 0x17e4_40b9_c3f2_a65b;
const GUARD: u8 = 0xC9;
const TAIL: usize = 16;

fn head(align: usize) -> usize {
    align.max(32)
}
unsafe fn magic(p: *mut u8) -> *mut u64 {
    p.sub(8) as *mut u64
}
unsafe fn epoch(p: *mut u8) -> *mut u32 {
    p.sub(32) as *mut u32
}
unsafe fn all(p: *const u8, n: usize, b: u8) -> bool {
    std::slice::from_raw_parts(p, n).iter().all(|x| *x == b)
}
fn bad(m: &str) -> ! {
    ON.store(false, Relaxed);
    crate::engine::violation(m)
}
unsafe fn release(i: usize) {
    let (p, size, align) = QUAR[i];
    System.dealloc((p as *mut u8).sub(head(align)), Layout::from_size_align_unchecked(head(align) + size + TAIL, align.max(16)));
}

unsafe impl GlobalAlloc for Track {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if !ON.load(Relaxed) {
            return System.alloc(l);
        }
        let h = head(l.align());
        let b = System.alloc(Layout::from_size_align_unchecked(h + l.size() + TAIL, l.align().max(16)));
        let p = b.add(h);
        *magic(p) = MAGIC;
        *epoch(p) = EPOCH;
        std::ptr::write_bytes(p.sub(24), GUARD, 16);
        std::ptr::write_bytes(p.add(l.size()), GUARD, TAIL);
        // make reads of uninitialised node memory visible
        std::ptr::write_bytes(p, 0xA5, l.size());
        LIVE += 1;
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        // for a block of another origin, this reads the chunk size the C library stores there
        let m = std::ptr::read_volatile(magic(p).cast::<[u8; 8]>());
        let m = u64::from_ne_bytes(m);
        if m == GONE {
            bad("a memory block was released twice");
        }
        if m != MAGIC {
            return System.dealloc(p, l);
        }
        if !all(p.sub(24), 16, GUARD) || !all(p.add(l.size()), TAIL, GUARD) {
            bad("memory around a block was overwritten, or it was released with another size");
        }
        *magic(p) = GONE;
        if *epoch(p) == EPOCH {
            LIVE -= 1;
        }
        // make reads of released node memory visible
        std::ptr::write_bytes(p, 0x5A, l.size());
        if QLEN == QCAP || QSUM > QBYTES {
            flush();
        }
        QUAR[QLEN] = (p as usize, l.size(), l.align());
        QLEN += 1;
        QSUM += l.size();
    }
}

unsafe fn flush() {
    for i in 0..QLEN {
        *magic(QUAR[i].0 as *mut u8) = 0;
        release(i);
    }
    QLEN = 0;
    QSUM = 0;
}
/// Released memory must still be as it was left.
pub fn check_released() {
    unsafe {
        for i in 0..QLEN {
            let (p, size, _) = QUAR[i];
            let p = p as *const u8;
            if !all(p, size, 0x5A) || !all(p.sub(24), 16, GUARD) || !all(p.add(size), TAIL, GUARD) {
                bad("memory was written to after its release");
            }
        }
    }
}

pub fn live() -> usize {
    unsafe { LIVE }
}
/// Forget blocks still recorded (after a path in which leaks are allowed).
pub fn forget() {
    unsafe {
        EPOCH = EPOCH.wrapping_add(1);
        LIVE = 0;
        flush();
    }
}
pub struct Set(bool);
impl Set {
    pub fn to(v: bool) -> Set {
        Set(ON.swap(v, Relaxed))
    }
}
impl Drop for Set {
    fn drop(&mut self) {
        ON.store(self.0, Relaxed)
    }
}
/// Run code under test: allocations inside are attributed to it.
pub fn call<R>(f: impl FnOnce() -> R) -> R {
    crate::engine::eng().st.calls += 1;
    let _g = Set::to(true);
    f()
}
