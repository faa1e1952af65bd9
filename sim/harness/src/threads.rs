//! Server scheduler threads as real OS threads under a baton (family F8): exactly one of them
//! or the main loop runs at any moment, and control changes hands only at `yield_point`, at a
//! blocking futex wait (std mutexes and friends), at `sched_yield`, or at the end of a step.
use crate::ctx;
use fibers::fiber::Scheduler;
use mio::sim;
use std::any::Any;
use std::cell::{Cell, RefCell};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::{Arc, Condvar, Mutex};

enum St {
    Idle,
    Run((u64, u64)),
    /// in a handler's own code or elsewhere
    Yielded(bool),
    Blocked,
    Panicked(Box<dyn Any + Send>),
    Quit,
}
struct Shared {
    m: Mutex<St>,
    cv: Condvar,
}
struct SendBox<T>(T);
unsafe impl<T> Send for SendBox<T> {}

thread_local! {
    /// this thread is a worker that currently runs simulated code
    static IN_STEP: Cell<bool> = const { Cell::new(false) };
    static SHARED: RefCell<Option<Arc<Shared>>> = const { RefCell::new(None) };
    static STEPS: Cell<u64> = const { Cell::new(0) };
}

pub struct Worker {
    shared: Arc<Shared>,
    sched: Option<Arc<Mutex<SendBox<Scheduler>>>>,
    join: Option<std::thread::JoinHandle<()>>,
    /// inside a step; Some(n): blocked at worker step n
    mid: bool,
    blocked_at: Option<u64>,
    in_handler: bool,
    dead: bool,
    /// how often in a row it was found to wait for a thread that runs a handler
    pub waits: u64,
}
impl Worker {
    pub fn new(s: Scheduler) -> Worker {
        let shared = Arc::new(Shared {
            m: Mutex::new(St::Idle),
            cv: Condvar::new(),
        });
        let sched = Arc::new(Mutex::new(SendBox(s)));
        let (sh, sc) = (shared.clone(), sched.clone());
        let w = sim::current();
        let r = ctx::get();
        let clock = sim::clock();
        let hash_seed = HASH_SEED.with(|s| s.get());
        let executing = crate::check::death::current();
        let join = std::thread::Builder::new()
            .stack_size(16 << 20)
            .spawn(move || {
                HASH_SEED.with(|s| s.set(hash_seed));
                crate::check::death::same(executing);
                sim::set_clock(clock);
                sim::set_current(Some(w));
                ctx::set(Some(r));
                SHARED.with(|x| *x.borrow_mut() = Some(sh.clone()));
                loop {
                    let c = {
                        let mut g = sh.m.lock().unwrap();
                        loop {
                            match *g {
                                St::Quit => return,
                                St::Run(c) => break c,
                                _ => g = sh.cv.wait(g).unwrap(),
                            }
                        }
                    };
                    sim::set_clock(Some(c));
                    let r = {
                        let mut s = sc.lock().unwrap_or_else(|e| e.into_inner());
                        IN_STEP.with(|f| f.set(true));
                        let r = catch_unwind(AssertUnwindSafe(|| s.0.run_once(false)));
                        IN_STEP.with(|f| f.set(false));
                        r
                    };
                    let mut g = sh.m.lock().unwrap();
                    let stop = r.is_err();
                    *g = match r {
                        Ok(()) => St::Idle,
                        Err(e) => St::Panicked(e),
                    };
                    sh.cv.notify_all();
                    if stop {
                        // unwound fibers stay where they are
                        std::mem::forget(sc);
                        return;
                    }
                }
            })
            .expect("worker thread");
        Worker {
            shared,
            sched: Some(sched),
            join: Some(join),
            mid: false,
            blocked_at: None,
            in_handler: false,
            dead: false,
            waits: 0,
        }
    }
    pub fn blocked(&self) -> bool {
        self.mid && self.blocked_at.is_some()
    }
    pub fn in_handler(&self) -> bool {
        self.mid && self.in_handler
    }
    pub fn mid(&self) -> bool {
        self.mid
    }
    pub fn runnable(&mut self) -> bool {
        if self.dead {
            return false;
        }
        if self.mid {
            return self.blocked_at.map_or(true, |n| n != STEPS.with(|s| s.get()));
        }
        let s = self.sched.as_ref().unwrap().lock().unwrap_or_else(|e| e.into_inner());
        s.0.sim_has_work()
    }
    /// Lets the thread run until it finishes its step, yields or blocks.
    pub fn step(&mut self) -> Result<(), Box<dyn Any + Send>> {
        let c = sim::clock().expect("clock");
        let mut g = self.shared.m.lock().unwrap();
        *g = St::Run(c);
        self.shared.cv.notify_all();
        loop {
            match *g {
                St::Run(_) => g = self.shared.cv.wait(g).unwrap(),
                _ => break,
            }
        }
        STEPS.with(|s| s.set(s.get() + 1));
        self.blocked_at = None;
        self.in_handler = false;
        match *g {
            St::Idle => self.mid = false,
            St::Yielded(h) => {
                self.mid = true;
                self.in_handler = h;
            }
            St::Blocked => {
                self.mid = true;
                self.blocked_at = Some(STEPS.with(|s| s.get()));
            }
            St::Panicked(_) => {
                self.dead = true;
                let p = std::mem::replace(&mut *g, St::Quit);
                if let St::Panicked(e) = p {
                    return Err(e);
                }
            }
            _ => unreachable!(),
        }
        Ok(())
    }
}
impl Drop for Worker {
    fn drop(&mut self) {
        if self.dead {
            std::mem::forget(self.sched.take());
            return;
        }
        let mut n = 0;
        while self.mid && n < 1000 {
            n += 1;
            if self.step().is_err() {
                std::mem::forget(self.sched.take());
                return;
            }
        }
        if self.mid {
            // blocked for good
            std::mem::forget(self.sched.take());
            return;
        }
        *self.shared.m.lock().unwrap() = St::Quit;
        self.shared.cv.notify_all();
        if let Some(j) = self.join.take() {
            let _ = j.join();
        }
    }
}

fn hand_over(st: St) {
    IN_STEP.with(|f| f.set(false));
    let sh = SHARED.with(|x| x.borrow().clone()).expect("worker");
    {
        let mut g = sh.m.lock().unwrap();
        *g = st;
        sh.cv.notify_all();
        loop {
            match *g {
                St::Run(c) => {
                    sim::set_clock(Some(c));
                    break;
                }
                _ => g = sh.cv.wait(g).unwrap(),
            }
        }
    }
    IN_STEP.with(|f| f.set(true));
}
fn in_step() -> bool {
    IN_STEP.try_with(|f| f.get()).unwrap_or(false)
}

/// A place where another thread may run.
pub fn yield_point() {
    if in_step() {
        hand_over(St::Yielded(false));
    }
}
/// The same within a handler.
pub fn handler_yield() {
    if in_step() {
        hand_over(St::Yielded(true));
    }
}

// ---------------------------------------------------------------- interposed system calls

#[inline(always)]
unsafe fn raw6(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    let r: i64;
    std::arch::asm!(
        "syscall",
        inlateout("rax") n => r,
        in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, in("r8") e, in("r9") f,
        lateout("rcx") _, lateout("r11") _, options(nostack)
    );
    r
}
unsafe fn ret(r: i64) -> i64 {
    if (-4095..0).contains(&r) {
        *libc::__errno_location() = (-r) as i32;
        -1
    } else {
        r
    }
}
/// std's futexes come through here.
///
/// # Safety
/// Same contract as `syscall(2)`.
#[no_mangle]
pub unsafe extern "C" fn syscall(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    if n == libc::SYS_futex && in_step() {
        let op = (b as i32) & 0x7f;
        if op == libc::FUTEX_WAIT || op == libc::FUTEX_WAIT_BITSET {
            let p = a as *const std::sync::atomic::AtomicU32;
            if (*p).load(std::sync::atomic::Ordering::SeqCst) != c as u32 {
                *libc::__errno_location() = libc::EAGAIN;
                return -1;
            }
            hand_over(St::Blocked);
            return 0;
        }
    }
    ret(raw6(n, a, b, c, d, e, f))
}
/// # Safety
/// Same contract as `sched_yield(2)`.
#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> i32 {
    if in_step() {
        hand_over(St::Blocked);
        return 0;
    }
    ret(raw6(libc::SYS_sched_yield, 0, 0, 0, 0, 0, 0)) as i32
}
/// The simulated clock on simulation threads, the real one elsewhere.
///
/// # Safety
/// Same contract as `clock_gettime(2)`.
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: i32, ts: *mut libc::timespec) -> i32 {
    if let Some((mono, wall)) = sim::clock() {
        let v = if id == libc::CLOCK_REALTIME || id == libc::CLOCK_REALTIME_COARSE {
            wall
        } else {
            mono
        };
        (*ts).tv_sec = (v / 1_000_000_000) as i64;
        (*ts).tv_nsec = (v % 1_000_000_000) as i64;
        return 0;
    }
    ret(raw6(libc::SYS_clock_gettime, id as i64, ts as i64, 0, 0, 0, 0)) as i32
}
thread_local! {
    /// What the randomness of the operating system is replaced with.
    pub static HASH_SEED: std::cell::Cell<u64> = const { std::cell::Cell::new(0) };
}
/// Told by the run's seed on simulation threads (this is what the order of hash maps depends on).
///
/// # Safety
/// Same contract as `getrandom(2)`.
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, flags: u32) -> isize {
    if sim::clock().is_some() {
        let seed = HASH_SEED.with(|s| s.get());
        for i in 0..len {
            *buf.add(i) = (seed >> (8 * (i % 8))) as u8 ^ (i as u8).wrapping_mul(37);
        }
        return len as isize;
    }
    ret(raw6(libc::SYS_getrandom, buf as i64, len as i64, flags as i64, 0, 0, 0)) as isize
}
fn sim_sleep(ts: *const libc::timespec) -> bool {
    if sim::clock().is_none() || ts.is_null() {
        return false;
    }
    let d = unsafe { (*ts).tv_sec as u64 * 1_000_000_000 + (*ts).tv_nsec as u64 };
    let w = sim::current();
    let mut g = ctx::wlock(&w);
    let t = g.now + d;
    g.fault("thread_sleep");
    g.advance_to(t);
    true
}
/// A simulation thread that sleeps lets simulated time pass.
///
/// # Safety
/// Same contract as `nanosleep(2)`.
#[no_mangle]
pub unsafe extern "C" fn nanosleep(ts: *const libc::timespec, rem: *mut libc::timespec) -> i32 {
    if sim_sleep(ts) {
        return 0;
    }
    ret(raw6(libc::SYS_nanosleep, ts as i64, rem as i64, 0, 0, 0, 0)) as i32
}
/// # Safety
/// Same contract as `clock_nanosleep(2)`.
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(id: i32, flags: i32, ts: *const libc::timespec, rem: *mut libc::timespec) -> i32 {
    if flags == 0 && sim_sleep(ts) {
        return 0;
    }
    (-raw6(libc::SYS_clock_nanosleep, id as i64, flags as i64, ts as i64, rem as i64, 0, 0)) as i32
}
