//! Virtual wall clock. The whole process reads `CLOCK_REALTIME` through this
//! `clock_gettime`, which adds an offset the workload can move, so that expiry
//! is observed without waiting and without touching the system clock.

use std::cell::Cell;

thread_local! {
    static OFFSET: Cell<i64> = const { Cell::new(0) };
}

#[repr(C)]
pub struct Timespec {
    sec: i64,
    nsec: i64,
}

extern "C" {
    fn syscall(num: i64, ...) -> i64;
}

/// # Safety
/// Called by the C library's users with a valid pointer.
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clock: i32, ts: *mut Timespec) -> i32 {
    let r = syscall(228, clock as i64, ts);
    if r == 0 && clock == 0 {
        (*ts).sec += OFFSET.with(Cell::get);
    }
    r as i32
}

/// Move the virtual clock forward.
pub fn advance(seconds: i64) {
    OFFSET.with(|o| o.set(o.get() + seconds));
}

pub fn reset() {
    OFFSET.with(|o| o.set(0));
}

pub fn now() -> i64 {
    chrono::Utc::now().timestamp()
}
