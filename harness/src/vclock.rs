//! A virtual monotonic clock for one thread.  std's `Instant::now()` calls
//! libc's `clock_gettime`; this definition in the executable takes precedence
//! over libc's, so time-dependent code runs against generated time without any
//! change to it.
use std::cell::Cell;
use std::time::Duration;

thread_local! {
    static NOW: Cell<i64> = const { Cell::new(0) };
}

/// # Safety
/// Same contract as libc's clock_gettime.
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: libc::clockid_t, ts: *mut libc::timespec) -> libc::c_int {
    if clk == libc::CLOCK_MONOTONIC {
        let v = NOW.try_with(|c| c.get()).unwrap_or(0);
        if v != 0 {
            (*ts).tv_sec = v / 1_000_000_000;
            (*ts).tv_nsec = v % 1_000_000_000;
            return 0;
        }
    }
    libc::syscall(libc::SYS_clock_gettime, clk, ts) as libc::c_int
}

/// While alive, `Instant::now()` on this thread is the virtual time.
pub struct VClock(());
const BASE: i64 = 1_000_000_000_000_000; // 10^6 s, so that subtraction never underflows
impl VClock {
    pub fn start() -> Self {
        NOW.with(|c| c.set(BASE));
        VClock(())
    }
    pub fn advance(&self, d: Duration) {
        NOW.with(|c| c.set(c.get() + d.as_nanos() as i64));
    }
    pub fn advance_ms(&self, ms: u64) {
        self.advance(Duration::from_millis(ms));
    }
    /// Virtual milliseconds since start.
    pub fn ms(&self) -> u64 {
        ((NOW.with(|c| c.get()) - BASE) / 1_000_000) as u64
    }
}
impl Drop for VClock {
    fn drop(&mut self) {
        NOW.with(|c| c.set(0));
    }
}
pub fn advance_ms(ms: u64) {
    NOW.with(|c| c.set(c.get() + ms as i64 * 1_000_000));
}
/// Virtual milliseconds since start.
pub fn now_ms() -> u64 {
    ((NOW.with(|c| c.get()) - BASE) / 1_000_000) as u64
}
