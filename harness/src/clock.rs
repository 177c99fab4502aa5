//! A clock the checks can set forward.
//!
//! The standard library reads its clocks with `clock_gettime`; this definition
//! takes the place of the C library's in this program. It adds an offset of the
//! calling thread to what the kernel says, so hours can pass within a call.

use std::cell::Cell;
use std::os::raw::{c_int, c_long};

#[repr(C)]
pub struct Timespec {
    sec: i64,
    nsec: i64,
}

extern "C" {
    fn syscall(num: c_long, ...) -> c_long;
}

#[cfg(target_arch = "x86_64")]
const CLOCK_GETTIME: c_long = 228;
#[cfg(target_arch = "aarch64")]
const CLOCK_GETTIME: c_long = 113;

thread_local! {
    static OFFSET: Cell<u64> = const { Cell::new(0) };
}

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: c_int, t: *mut Timespec) -> c_int {
    let r = syscall(CLOCK_GETTIME, id as c_long, t) as c_int;
    // real time, monotonic clock, time since boot
    if r == 0 && (id == 0 || id == 1 || id == 7) {
        let o = OFFSET.try_with(|o| o.get()).unwrap_or(0);
        if o > 0 {
            let n = (*t).nsec as u64 + o % 1_000_000_000;
            (*t).sec += (o / 1_000_000_000 + n / 1_000_000_000) as i64;
            (*t).nsec = (n % 1_000_000_000) as i64;
        }
    }
    r
}

/// Lets that many nanoseconds pass for this thread.
pub fn advance(ns: u64) {
    OFFSET.with(|o| o.set(o.get() + ns));
}

/// Back to the present. Instants taken before are then in the future.
pub fn reset() {
    OFFSET.with(|o| o.set(0));
}
