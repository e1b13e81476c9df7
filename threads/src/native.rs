//! Plain keys and counted values, to compare the executor with the machine code.
use std::sync::Mutex;

static LOG: Mutex<Vec<(u64, u64)>> = Mutex::new(Vec::new());
static NEXT: Mutex<u64> = Mutex::new(1 << 20);

#[no_mangle]
pub extern "C" fn sym_cmp(a: u64, b: u64) -> i8 {
    (a > b) as i8 - (a < b) as i8
}
#[no_mangle]
pub extern "C" fn val_clone(v: u64) -> u64 {
    let mut n = NEXT.lock().unwrap();
    *n += 1;
    LOG.lock().unwrap().push((v, *n));
    *n
}
#[no_mangle]
pub extern "C" fn val_drop(v: u64) {
    LOG.lock().unwrap().push((v, 0));
}
/// Hands over what was cloned and destroyed since the last call.
#[no_mangle]
pub unsafe extern "C" fn native_log(out: *mut [u64; 2], max: usize) -> usize {
    let mut l = LOG.lock().unwrap();
    let n = l.len().min(max);
    for (i, (a, b)) in l.drain(..).enumerate() {
        if i < max {
            out.add(i).write([a, b]);
        }
    }
    n
}
