//! The randomness of the operating system, which seeds hash maps among others.

use std::sync::atomic::{AtomicU64, Ordering};

static STATE: AtomicU64 = AtomicU64::new(0);

pub fn set(seed: u64) {
    STATE.store(seed, Ordering::SeqCst);
}

/// Takes the place of the system call.
///
/// # Safety
///
/// The buffer must be as long as it is said to be.
#[no_mangle]
pub unsafe extern "C" fn getrandom(buffer: *mut u8, length: usize, _: u32) -> isize {
    for i in 0..length {
        let v = STATE.fetch_add(1, Ordering::SeqCst);
        *buffer.add(i) = crate::rng::mix(v) as u8;
    }
    length as isize
}
