//! Virtual time for the library.
//!
//! While a case runs (`scope`), the clock of its thread stands still except
//! for jumps at each query: mostly some milliseconds, now and then seconds,
//! minutes or days. So whatever the library did with the time would be seen
//! under every spacing of calls, and the same case sees the same times.
//! The library does not look at the clock today, and its properties hold at
//! any pace.

use std::cell::Cell;

thread_local! {
    /// in a case, queries so far, nanoseconds passed
    static STATE: Cell<(bool, u64, u64)> = const { Cell::new((false, 0, 0)) };
}

#[repr(C)]
pub struct Timespec {
    sec: i64,
    nsec: i64,
}

unsafe extern "C" {
    fn syscall(nr: i64, ...) -> i64;
    fn pthread_self() -> usize;
    fn pthread_getcpuclockid(thread: usize, clock: *mut i32) -> i32;
}

/// The processor time of a thread, readable from any thread.
#[derive(Clone, Copy)]
pub struct ThreadClock(i32);

impl ThreadClock {
    pub fn current() -> Option<ThreadClock> {
        let mut id = 0;
        (unsafe { pthread_getcpuclockid(pthread_self(), &mut id) } == 0).then_some(ThreadClock(id))
    }
    /// None once the thread has ended.
    pub fn secs(self) -> Option<f64> {
        let mut t = Timespec { sec: 0, nsec: 0 };
        let r = unsafe { syscall(SYS_CLOCK_GETTIME, self.0 as i64, &mut t as *mut Timespec) };
        (r == 0).then_some(t.sec as f64 + t.nsec as f64 * 1e-9)
    }
}

#[cfg(target_arch = "x86_64")]
const SYS_CLOCK_GETTIME: i64 = 228;
#[cfg(target_arch = "aarch64")]
const SYS_CLOCK_GETTIME: i64 = 113;

fn jump(n: u64) -> u64 {
    const MS: u64 = 1_000_000;
    let h = super::engine::mix(n);
    match h % 16 {
        0..10 => 10 * MS,
        10 => 0,
        11 | 12 => 1_500 * MS,
        13 => 45_000 * MS,
        14 => 660_000 * MS,
        _ => 3 * 86_400_000 * MS,
    }
}

/// Takes the place of libc's function (which std uses).
#[unsafe(no_mangle)]
extern "C" fn clock_gettime(id: i32, ts: *mut Timespec) -> i32 {
    let (on, n, t) = STATE.get();
    if !on {
        return unsafe { syscall(SYS_CLOCK_GETTIME, id as i64, ts) as i32 };
    }
    let t = t + jump(n);
    STATE.set((on, n + 1, t));
    let base = if id == 0 { 1_700_000_000 } else { 10_000 };
    unsafe {
        (*ts).sec = base + (t / 1_000_000_000) as i64;
        (*ts).nsec = (t % 1_000_000_000) as i64;
    }
    0
}

/// Runs `f` in virtual time, starting anew. Nothing in `f` may take the time
/// for the harness itself.
pub fn scope<R>(f: impl FnOnce() -> R) -> R {
    struct Off;
    impl Drop for Off {
        fn drop(&mut self) {
            STATE.set((false, 0, 0));
        }
    }
    let _off = Off;
    STATE.set((true, 0, 0));
    f()
}
