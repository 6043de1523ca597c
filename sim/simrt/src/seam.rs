//! Process-wide seams: where memory comes from, what `getrandom` and the clocks answer.
//!
//! * Memory of a run comes from one arena at a fixed address with an allocation order that depends on
//!   nothing but the run, so that addresses are part of the replayable execution. Freed blocks are
//!   handed out again first (or last, seeded). Fresh and freed blocks are filled with a byte that a
//!   run and its solo baselines choose differently, so that a result read from memory that was never
//!   written or was already released shows up as a difference.
//! * `getrandom` (the only source of std's hash seeds) answers from the run's seed. Solo baselines get
//!   another seed, so that a result depending on it shows up as a difference.
//! * `clock_gettime` answers with a simulated clock inside library calls.
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicU8, AtomicUsize, Ordering};

const BASE: usize = 0x2000_0000_0000;
const SIZE: usize = 16 << 30;
const CLASSES: usize = 64 + 32;

static ON: AtomicBool = AtomicBool::new(false);
static LOCK: AtomicBool = AtomicBool::new(false);
static TOP: AtomicUsize = AtomicUsize::new(0);
static FIFO: AtomicBool = AtomicBool::new(false);
static FILL: AtomicU8 = AtomicU8::new(b'~');
struct Lists([AtomicUsize; CLASSES], [AtomicUsize; CLASSES]);
static FREE: Lists = Lists([const { AtomicUsize::new(0) }; CLASSES], [const { AtomicUsize::new(0) }; CLASSES]);

fn class(size: usize) -> (usize, usize) {
    if size <= 1024 {
        let c = size.max(1).div_ceil(16);
        (c - 1, c * 16)
    } else {
        let s = size.next_power_of_two();
        (64 + s.trailing_zeros() as usize - 11, s)
    }
}

/// Maps the arena (once, before any fork); addresses are the same in every process.
pub fn map_arena() {
    let p = unsafe {
        libc::mmap(
            BASE as *mut libc::c_void,
            SIZE,
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE | libc::MAP_FIXED_NOREPLACE,
            -1,
            0,
        )
    };
    assert!(p as usize == BASE, "cannot map the arena");
}
/// From now on all memory of this process comes from the arena.
pub fn arena_on() {
    ON.store(true, Ordering::SeqCst);
}
/// Freed blocks are reused last-in-first-out (as by common allocators) or first-in-first-out.
pub fn reuse_fifo(v: bool) {
    FIFO.store(v, Ordering::Relaxed);
}

/// What fresh and freed blocks contain.
pub fn fill(b: u8) {
    FILL.store(b, Ordering::Relaxed);
}
unsafe fn paint(p: *mut u8, sz: usize) {
    std::ptr::write_bytes(p, FILL.load(Ordering::Relaxed), sz.min(1 << 16));
}

fn locked<R>(f: impl FnOnce() -> R) -> R {
    while LOCK.swap(true, Ordering::Acquire) {
        unsafe { raw(libc::SYS_sched_yield, 0, 0, 0, 0, 0, 0) };
    }
    let r = f();
    LOCK.store(false, Ordering::Release);
    r
}

#[inline]
pub fn owns(p: *mut u8) -> bool {
    (p as usize).wrapping_sub(BASE) < SIZE
}

/// # Safety
/// as for `GlobalAlloc::alloc`
pub unsafe fn take(size: usize, align: usize) -> Option<*mut u8> {
    if !ON.load(Ordering::Relaxed) || align > 16 {
        return None;
    }
    let (c, sz) = class(size);
    let p = locked(|| {
        let h = FREE.0[c].load(Ordering::Relaxed);
        if h != 0 {
            let next = *(h as *const usize);
            FREE.0[c].store(next, Ordering::Relaxed);
            if next == 0 {
                FREE.1[c].store(0, Ordering::Relaxed);
            }
            return h as *mut u8;
        }
        let t = TOP.load(Ordering::Relaxed);
        if t + sz > SIZE {
            return std::ptr::null_mut();
        }
        TOP.store(t + sz, Ordering::Relaxed);
        (BASE + t) as *mut u8
    });
    if !p.is_null() {
        paint(p, sz);
    }
    Some(p)
}
/// # Safety
/// `p` came from `take` with this size
pub unsafe fn give(p: *mut u8, size: usize) {
    let (c, sz) = class(size);
    paint(p, sz);
    locked(|| {
        let tail = FREE.1[c].load(Ordering::Relaxed);
        if FIFO.load(Ordering::Relaxed) && tail != 0 {
            *(p as *mut usize) = 0;
            *(tail as *mut usize) = p as usize;
            FREE.1[c].store(p as usize, Ordering::Relaxed);
        } else {
            let h = FREE.0[c].load(Ordering::Relaxed);
            *(p as *mut usize) = h;
            FREE.0[c].store(p as usize, Ordering::Relaxed);
            if h == 0 {
                FREE.1[c].store(p as usize, Ordering::Relaxed);
            }
        }
    })
}
pub fn block(size: usize) -> usize {
    class(size).1
}

static RANDOM: AtomicU64 = AtomicU64::new(1);
pub fn set_random(v: u64) {
    RANDOM.store(v, Ordering::Relaxed);
}
static CLOCK: AtomicU64 = AtomicU64::new(0);
pub fn set_clock(ns: u64) {
    CLOCK.store(ns, Ordering::Relaxed);
}
pub fn advance_clock(ns: u64) {
    CLOCK.fetch_add(ns, Ordering::Relaxed);
}

/// # Safety
/// replaces libc's
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, _flags: u32) -> isize {
    for i in 0..len {
        let x = crate::src::mix(RANDOM.fetch_add(1, Ordering::Relaxed), 77);
        *buf.add(i) = x as u8;
    }
    len as isize
}
/// # Safety
/// replaces libc's
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: libc::clockid_t, ts: *mut libc::timespec) -> libc::c_int {
    if crate::ctx::with(|c| c.active.get()) {
        // every look at the clock takes a microsecond of simulated time
        let t = CLOCK.fetch_add(1000, Ordering::Relaxed);
        (*ts).tv_sec = (t / 1_000_000_000) as i64;
        (*ts).tv_nsec = (t % 1_000_000_000) as i64;
        return 0;
    }
    raw(libc::SYS_clock_gettime, id as i64, ts as i64, 0, 0, 0, 0) as libc::c_int
}

unsafe fn raw(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    let r: i64;
    std::arch::asm!(
        "syscall",
        inlateout("rax") n => r,
        in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, in("r8") e, in("r9") f,
        lateout("rcx") _, lateout("r11") _,
    );
    r
}
/// std's locks, condition variables and thread parking wait and wake through this: inside library
/// calls of simulated threads the scheduler does both.
///
/// # Safety
/// replaces libc's
#[no_mangle]
pub unsafe extern "C" fn syscall(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    let mut r = None;
    if n == libc::SYS_futex {
        match b as i32 & 0x7f {
            // FUTEX_WAIT, FUTEX_WAIT_BITSET
            0 | 9 => r = crate::sched::futex_wait(a as *const _, c as u32, d != 0).map(|x| x.map_or_else(|e| -(e as i64), |_| 0)),
            // FUTEX_WAKE, FUTEX_WAKE_BITSET
            1 | 10 => {
                let k = crate::sched::futex_wake(a as usize, c as usize);
                if k > 0 {
                    let more = if k < c as usize { raw(n, a, b, c - k as i64, d, e, f).max(0) } else { 0 };
                    r = Some(k as i64 + more);
                }
            }
            _ => {}
        }
    }
    let r = r.unwrap_or_else(|| raw(n, a, b, c, d, e, f));
    if r < 0 && r > -4096 {
        *libc::__errno_location() = -r as i32;
        return -1;
    }
    r
}
/// # Safety
/// replaces libc's
#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> libc::c_int {
    if !crate::sched::pause() {
        raw(libc::SYS_sched_yield, 0, 0, 0, 0, 0, 0);
    }
    0
}
/// # Safety
/// replaces libc's; the simulated clock does the sleeping
#[no_mangle]
pub unsafe extern "C" fn nanosleep(t: *const libc::timespec, left: *mut libc::timespec) -> libc::c_int {
    if crate::ctx::with(|c| c.active.get()) && !t.is_null() {
        advance_clock(((*t).tv_sec as u64).saturating_mul(1_000_000_000).saturating_add((*t).tv_nsec as u64));
        crate::sched::pause();
        return 0;
    }
    let r = raw(libc::SYS_nanosleep, t as i64, left as i64, 0, 0, 0, 0);
    if r < 0 {
        *libc::__errno_location() = -r as i32;
        return -1;
    }
    0
}
/// # Safety
/// replaces libc's; the simulated clock does the sleeping
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(id: libc::clockid_t, flags: libc::c_int, t: *const libc::timespec, left: *mut libc::timespec) -> libc::c_int {
    if crate::ctx::with(|c| c.active.get()) && !t.is_null() {
        let ns = ((*t).tv_sec as u64).saturating_mul(1_000_000_000).saturating_add((*t).tv_nsec as u64);
        if flags & libc::TIMER_ABSTIME != 0 {
            CLOCK.fetch_max(ns, Ordering::Relaxed);
        } else {
            advance_clock(ns);
        }
        crate::sched::pause();
        return 0;
    }
    -raw(libc::SYS_clock_nanosleep, id as i64, flags as i64, t as i64, left as i64, 0, 0) as libc::c_int
}
