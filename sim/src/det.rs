//! Makes the process deterministic below the runtime seam: the few places where the dependencies ask
//! the operating system for entropy (hash seeds, thread-local generators of `futures::select!` and
//! tokio) all come through `getrandom`, which is replaced here by a fixed stream.

use std::sync::atomic::AtomicU64;
use std::sync::atomic::Ordering;

static CALLS: AtomicU64 = AtomicU64::new(0);

pub fn reset() {
    CALLS.store(0, Ordering::SeqCst);
}

fn fill(buf: *mut u8, len: usize) {
    let mut x = 0x9E3779B97F4A7C15u64.wrapping_add(CALLS.fetch_add(1, Ordering::SeqCst));
    for i in 0..len {
        x ^= x << 13;
        x ^= x >> 7;
        x ^= x << 17;
        unsafe { *buf.add(i) = x as u8 };
    }
}

#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut libc::c_void, len: libc::size_t, _flags: libc::c_uint) -> libc::ssize_t {
    fill(buf as *mut u8, len);
    len as libc::ssize_t
}

#[no_mangle]
pub unsafe extern "C" fn getentropy(buf: *mut libc::c_void, len: libc::size_t) -> libc::c_int {
    fill(buf as *mut u8, len);
    0
}

/// Is the replacement the one the standard library uses?
pub fn self_check() -> Result<(), String> {
    use std::hash::BuildHasher;
    let before = CALLS.load(Ordering::SeqCst);
    let h = std::thread::spawn(|| std::collections::hash_map::RandomState::new().hash_one(1u64)).join().unwrap();
    let _ = h;
    if CALLS.load(Ordering::SeqCst) == before {
        return Err("getrandom is not intercepted".into());
    }
    Ok(())
}
