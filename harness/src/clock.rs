//! The machine clock as the code under test sees it. The definition of `clock_gettime` below takes
//! precedence over libc's, so that a case can set the wall clock of its own thread; everything
//! else is passed through. `works()` tells whether the override takes effect (if a future standard
//! library read the clock in another way, cases would fall back to the real clock).
use std::cell::Cell;
use std::time::{SystemTime, UNIX_EPOCH};

thread_local! {
    static FAKE: Cell<Option<u64>> = const { Cell::new(None) };
}

/// # Safety
/// Same contract as libc's clock_gettime
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: libc::clockid_t, tp: *mut libc::timespec) -> libc::c_int {
    if id == libc::CLOCK_REALTIME {
        if let Ok(Some(secs)) = FAKE.try_with(|f| f.get()) {
            (*tp).tv_sec = secs as libc::time_t;
            (*tp).tv_nsec = 500_000_000;
            return 0;
        }
    }
    libc::syscall(libc::SYS_clock_gettime, id, tp) as libc::c_int
}

pub fn set(secs: u64) {
    FAKE.with(|f| f.set(Some(secs)));
}

pub fn reset() {
    FAKE.with(|f| f.set(None));
}

pub fn real_now() -> u64 {
    SystemTime::now()
        .duration_since(UNIX_EPOCH)
        .unwrap()
        .as_secs()
}

pub fn works() -> bool {
    let before = FAKE.with(|f| f.get());
    set(12345);
    let ok = real_now() == 12345 && ucan::time::now() == 12345;
    FAKE.with(|f| f.set(before));
    ok
}
