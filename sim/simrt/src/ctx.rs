//! Per-thread context consulted at every scheduling point and every allocation made inside a call.
use crate::sched::Slot;
use crate::seam;
use crate::shm::{self, Stat};
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicI64, AtomicU32, Ordering};

/// Sizes from which requests are counted apart.
pub const BIG: [usize; 7] = [128, 513, 1025, 2049, 4097, 16385, 65537];

pub struct Ctx {
    pub active: Cell<bool>,
    pub steps: Cell<u64>,
    pub slot: Cell<*const Slot>,
    pub sp_min: Cell<usize>,
    // allocation faults
    pub allocs: Cell<u64>,
    pub fail_at: Cell<u64>,
    pub fail_all: Cell<bool>,
    /// only requests of at least this many bytes fail, and `fail_at` counts only these
    pub fail_min: Cell<usize>,
    pub fail_seen: Cell<u64>,
    /// requests of at least `BIG[i]` bytes
    pub big: Cell<[u64; BIG.len()]>,
    pub fail_fired: Cell<bool>,
    pub cur: Cell<i64>,
    pub peak: Cell<i64>,
    pub quota: Cell<i64>,
    pub quota_hit: Cell<bool>,
    // text callbacks
    pub cbs: Cell<u64>,
    pub panic_at: Cell<u64>,
    pub panic_id: Cell<u64>,
    pub panic_fired: Cell<bool>,
    pub reenter_at: Cell<u64>,
    pub reenter: Cell<Option<fn()>>,
}

thread_local! {
    static C: Ctx = const { Ctx {
        active: Cell::new(false),
        steps: Cell::new(0),
        slot: Cell::new(std::ptr::null()),
        sp_min: Cell::new(usize::MAX),
        allocs: Cell::new(0),
        fail_at: Cell::new(u64::MAX),
        fail_all: Cell::new(false),
        fail_min: Cell::new(0),
        fail_seen: Cell::new(0),
        big: Cell::new([0; BIG.len()]),
        fail_fired: Cell::new(false),
        cur: Cell::new(0),
        peak: Cell::new(0),
        quota: Cell::new(i64::MAX),
        quota_hit: Cell::new(false),
        cbs: Cell::new(0),
        panic_at: Cell::new(u64::MAX),
        panic_id: Cell::new(0),
        panic_fired: Cell::new(false),
        reenter_at: Cell::new(u64::MAX),
        reenter: Cell::new(None),
    } };
}

#[inline]
pub fn with<R>(f: impl FnOnce(&Ctx) -> R) -> R {
    C.with(f)
}
pub fn set_active(v: bool) -> bool {
    C.with(|c| c.active.replace(v))
}

static GUARDS: AtomicU32 = AtomicU32::new(0);
pub fn guards() -> u32 {
    GUARDS.load(Ordering::Relaxed)
}

/// # Safety
/// called by the instrumentation once per module
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(start: *mut u32, stop: *mut u32) {
    if start == stop || *start != 0 {
        return;
    }
    let mut p = start;
    while p < stop {
        *p = GUARDS.fetch_add(1, Ordering::Relaxed) + 1;
        p = p.add(1);
    }
}

/// # Safety
/// called by the instrumentation on every basic block
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(g: *mut u32) {
    let _ = C.try_with(|c| {
        if !c.active.get() {
            return;
        }
        let here = 0u8;
        let sp = &here as *const u8 as usize;
        if sp < c.sp_min.get() {
            c.sp_min.set(sp);
        }
        let i = *g as usize;
        if let Some(m) = shm::get() {
            if i < shm::COV_CAP {
                m.cov[i] = 1;
            }
        }
        let slot = c.slot.get();
        let fresh = !slot.is_null() && crate::sched::fresh(&*slot, i);
        tick(c, fresh);
    });
}

#[inline]
fn tick(c: &Ctx, fresh: bool) {
    let s = c.steps.get() + 1;
    c.steps.set(s);
    let slot = c.slot.get();
    if !slot.is_null() && (fresh || s >= unsafe { (*slot).next.load(Ordering::Relaxed) }) {
        c.active.set(false);
        crate::sched::slow(c, s);
        c.active.set(true);
    }
}

/// A scheduling point inside a caller-supplied callback.
pub fn point() {
    C.with(|c| {
        if c.active.get() {
            tick(c, false)
        }
    })
}

pub struct Oom;
pub struct CallerPanic(pub u64);

#[derive(Debug)]
pub enum Outcome<T> {
    Done(T),
    /// the library (or std on its behalf) panicked
    Panic(String),
    /// the injected caller panic came through
    Caller(u64),
    /// the injected allocation failure came through
    Oom,
}
impl<T> Outcome<T> {
    pub fn map<U>(self, f: impl FnOnce(T) -> U) -> Outcome<U> {
        match self {
            Outcome::Done(x) => Outcome::Done(f(x)),
            Outcome::Panic(s) => Outcome::Panic(s),
            Outcome::Caller(i) => Outcome::Caller(i),
            Outcome::Oom => Outcome::Oom,
        }
    }
}

/// Runs library code: scheduling points, allocation faults and callbacks faults apply inside.
pub fn enter<T>(f: impl FnOnce() -> T) -> Outcome<T> {
    shm::bump(Stat::CALLS, 1);
    let was = set_active(true);
    let r = catch_unwind(AssertUnwindSafe(f));
    set_active(was);
    match r {
        Ok(x) => Outcome::Done(x),
        Err(p) => classify(p),
    }
}
pub fn classify<T>(p: Box<dyn std::any::Any + Send>) -> Outcome<T> {
    if p.is::<Oom>() {
        shm::oom(0);
        return Outcome::Oom;
    }
    match p.downcast::<CallerPanic>() {
        Ok(c) => Outcome::Caller(c.0),
        Err(p) => Outcome::Panic(if let Some(s) = p.downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = p.downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        }),
    }
}
/// Leaves library context for the duration of a callback.
pub fn leave<T>(f: impl FnOnce() -> T) -> T {
    struct Restore(bool);
    impl Drop for Restore {
        fn drop(&mut self) {
            set_active(self.0);
        }
    }
    let _r = Restore(set_active(false));
    f()
}
pub fn caller_panic(id: u64) -> ! {
    set_active(false);
    resume_unwind(Box::new(CallerPanic(id)))
}

/// Clears all armed faults and per-operation counters of this thread.
pub fn reset_op() {
    C.with(|c| {
        c.allocs.set(0);
        c.fail_at.set(u64::MAX);
        c.fail_all.set(false);
        c.fail_min.set(0);
        c.fail_seen.set(0);
        c.big.set([0; BIG.len()]);
        c.fail_fired.set(false);
        c.cur.set(0);
        c.peak.set(0);
        c.quota.set(i64::MAX);
        c.quota_hit.set(false);
        c.cbs.set(0);
        c.panic_at.set(u64::MAX);
        c.panic_fired.set(false);
        c.reenter_at.set(u64::MAX);
        c.reenter.set(None);
    })
}

static LAST: std::sync::Mutex<(String, String)> = std::sync::Mutex::new((String::new(), String::new()));
/// A panic arrived where none was expected: the library's fault, or the simulator's.
pub fn unexpected(p: Box<dyn std::any::Any + Send>) -> ! {
    set_active(false);
    let (at, text) = LAST.lock().unwrap_or_else(|e| e.into_inner()).clone();
    if p.is::<Oom>() || p.is::<CallerPanic>() {
        shm::harness_error("an injected fault escaped");
    }
    if at.contains("/repo/") || at.contains("/combine-") {
        shm::violation("panic", &format!("the library panicked at {at}: {text}"));
    }
    shm::harness_error(&format!("panic at {at}: {text}"));
}

pub fn init_process() {
    std::panic::set_hook(Box::new(|info| {
        let was = set_active(false);
        let at = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let text = info
            .payload()
            .downcast_ref::<String>()
            .cloned()
            .or_else(|| info.payload().downcast_ref::<&str>().map(|s| s.to_string()))
            .unwrap_or_default();
        *LAST.lock().unwrap_or_else(|e| e.into_inner()) = (at, text);
        set_active(was);
        if std::env::var_os("GQSIM_PANICS").is_some() {
            eprintln!("{info}");
        }
    }));
    std::alloc::set_alloc_error_hook(|_| {
        if set_active(false) {
            if with(|c| c.fail_fired.get()) {
                shm::oom(1);
            }
            resume_unwind(Box::new(Oom));
        }
    });
}

static LIVE: AtomicI64 = AtomicI64::new(0);
/// Bytes currently allocated in the process.
pub fn live() -> i64 {
    LIVE.load(Ordering::Relaxed)
}

pub struct SimAlloc;

#[inline]
fn refuse(c: &Ctx, size: i64, request: usize) -> bool {
    c.allocs.set(c.allocs.get() + 1);
    if request >= BIG[0] {
        let mut b = c.big.get();
        for (i, least) in BIG.iter().enumerate() {
            b[i] += (request >= *least) as u64;
        }
        c.big.set(b);
    }
    let n = c.fail_seen.get();
    c.fail_seen.set(n + (request >= c.fail_min.get()) as u64);
    if request >= c.fail_min.get() && n >= c.fail_at.get() && (n == c.fail_at.get() || c.fail_all.get()) && !std::thread::panicking() {
        if !c.fail_fired.replace(true) {
            shm::bump(if c.fail_all.get() { Stat::F_OOMALL } else { Stat::F_OOM1 }, 1);
        }
        return true;
    }
    let cur = c.cur.get() + size;
    if cur > c.quota.get() && !std::thread::panicking() {
        c.quota_hit.set(true);
        return true;
    }
    c.cur.set(cur);
    if cur > c.peak.get() {
        c.peak.set(cur);
    }
    false
}

unsafe fn raw_alloc(l: Layout) -> *mut u8 {
    match seam::take(l.size(), l.align()) {
        Some(p) => p,
        None => System.alloc(l),
    }
}
unsafe fn raw_free(p: *mut u8, l: Layout) {
    // released memory never keeps its content: a use after free cannot look right by luck
    if seam::owns(p) {
        seam::give(p, l.size());
    } else {
        std::ptr::write_bytes(p, 0x7E, l.size().min(256));
        System.dealloc(p, l)
    }
}

unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let no = C.try_with(|c| c.active.get() && refuse(c, l.size() as i64, l.size())).unwrap_or(false);
        if no {
            return std::ptr::null_mut();
        }
        LIVE.fetch_add(l.size() as i64, Ordering::Relaxed);
        raw_alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let _ = C.try_with(|c| {
            if c.active.get() {
                c.cur.set(c.cur.get() - l.size() as i64)
            }
        });
        LIVE.fetch_sub(l.size() as i64, Ordering::Relaxed);
        raw_free(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let no = C
            .try_with(|c| c.active.get() && refuse(c, n as i64 - l.size() as i64, n))
            .unwrap_or(false);
        if no {
            return std::ptr::null_mut();
        }
        LIVE.fetch_add(n as i64 - l.size() as i64, Ordering::Relaxed);
        if seam::owns(p) && seam::block(l.size()) == seam::block(n) {
            return p;
        }
        let q = raw_alloc(Layout::from_size_align_unchecked(n, l.align()));
        if !q.is_null() {
            std::ptr::copy_nonoverlapping(p, q, l.size().min(n));
            raw_free(p, l);
        }
        q
    }
}
