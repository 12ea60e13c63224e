//! Deterministic simulation of time for tokio code that runs over real loopback
//! sockets: on a thread inside `Sim`, the monotonic clock is virtual (vclock)
//! and moves only when nothing is left to do - `epoll_wait`, which tokio calls
//! when every task is idle, returns at once and the clock jumps to the next
//! timer instead.  Hours of keep-alive, back-off and time-outs take no time, and
//! nothing depends on the speed of the machine.
use crate::vclock::{self, VClock};
use std::cell::Cell;

thread_local! {
    static SIM: Cell<bool> = const { Cell::new(false) };
    static GRACE: Cell<i32> = const { Cell::new(0) };
}

/// # Safety
/// Same contract as libc's epoll_wait.
#[no_mangle]
pub unsafe extern "C" fn epoll_wait(epfd: libc::c_int, ev: *mut libc::epoll_event, max: libc::c_int, timeout: libc::c_int) -> libc::c_int {
    let real = |t: libc::c_int| libc::syscall(libc::SYS_epoll_wait, epfd, ev, max, t) as libc::c_int;
    if !SIM.try_with(|s| s.get()).unwrap_or(false) {
        return real(timeout);
    }
    // loopback delivers within the sender's system call; the extra polls are for
    // a kernel that postponed it
    for i in 0..4 {
        let n = real(0);
        if n != 0 || timeout == 0 {
            return n;
        }
        if i == 2 {
            std::thread::yield_now();
        }
    }
    let g = GRACE.with(|g| g.get());
    if g > 0 {
        let n = real(g);
        if n != 0 {
            return n;
        }
    }
    if timeout < 0 {
        return real(20);
    }
    vclock::advance_ms(timeout as u64);
    0
}

pub struct Sim(#[allow(dead_code)] VClock);
impl Sim {
    pub fn start(grace_ms: i32) -> Self {
        let v = VClock::start();
        SIM.with(|s| s.set(true));
        GRACE.with(|g| g.set(grace_ms));
        Sim(v)
    }
}
impl Drop for Sim {
    fn drop(&mut self) {
        SIM.with(|s| s.set(false));
    }
}

/// Virtual milliseconds since the start of the simulation.
pub fn now() -> u64 {
    vclock::now_ms()
}

/// A loopback address nobody else uses.
pub fn fresh_ip() -> std::net::Ipv4Addr {
    use std::sync::atomic::{AtomicU32, Ordering};
    static N: AtomicU32 = AtomicU32::new(0);
    let n = N.fetch_add(1, Ordering::Relaxed);
    std::net::Ipv4Addr::new(127, 1 + ((n / 62500) % 250) as u8, 1 + ((n / 250) % 250) as u8, 1 + (n % 250) as u8)
}

/// Runs the future to completion in virtual time, on this thread.
pub fn run<T>(grace_ms: i32, f: impl std::future::Future<Output = T>) -> T {
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
    let sim = Sim::start(grace_ms);
    let r = rt.block_on(f);
    drop(rt);
    drop(sim);
    r
}
