//! The scheduler: real threads, of which exactly one executes at a time; which one is decided here,
//! at basic-block scheduling points, from the run's choice source.
use crate::ctx::{self, Ctx};
use crate::shm::{self, Stat};
use crate::src::Src;
use std::sync::atomic::{AtomicBool, AtomicU32, AtomicU64, AtomicU8, AtomicUsize, Ordering};
use std::sync::{Condvar, Mutex, MutexGuard};
use std::time::Duration;

pub const MAXT: usize = 40;

pub struct Slot {
    /// step count at which the thread must come to the scheduler
    pub next: AtomicU64,
    /// freeze the thread at this many further basic blocks it has not executed before
    fresh_stall: AtomicU64,
    pub id: usize,
}
const NEVER: u64 = u64::MAX;
const NOW: u64 = u64::MAX - 1;

const GMASK: usize = (1 << 15) - 1;
/// How often each simulated thread has executed each basic block (saturating at LIMIT).
static SEEN: [[AtomicU8; GMASK + 1]; MAXT] = [const { [const { AtomicU8::new(0) }; GMASK + 1] }; MAXT];
static LIMIT: AtomicU8 = AtomicU8::new(0);
static FRESH_MODE: AtomicBool = AtomicBool::new(false);

/// Is this a rarely executed block at which the scheduler wants to be asked?
#[inline]
pub fn fresh(slot: &Slot, g: usize) -> bool {
    let lim = LIMIT.load(Ordering::Relaxed);
    if lim == 0 || slot.id == usize::MAX {
        return false;
    }
    let c = &SEEN[slot.id][g & GMASK];
    let n = c.load(Ordering::Relaxed);
    if n >= lim {
        return false;
    }
    c.store(n + 1, Ordering::Relaxed);
    let left = slot.fresh_stall.load(Ordering::Relaxed);
    if left < NOW {
        if left == 0 {
            slot.fresh_stall.store(NOW, Ordering::Relaxed);
            return true;
        }
        slot.fresh_stall.store(left - 1, Ordering::Relaxed);
    }
    FRESH_MODE.load(Ordering::Relaxed)
}
static SLOTS: [Slot; MAXT] = {
    const fn s(id: usize) -> Slot {
        Slot { next: AtomicU64::new(NEVER), fresh_stall: AtomicU64::new(NEVER), id }
    }
    let mut a = [const { s(0) }; MAXT];
    let mut i = 0;
    while i < MAXT {
        a[i].id = i;
        i += 1;
    }
    a
};
/// Slot of a thread that is alone: only the step cap applies.
static SOLO: Slot = Slot { next: AtomicU64::new(NEVER), fresh_stall: AtomicU64::new(NEVER), id: usize::MAX };
static SOLO_SOFT: AtomicBool = AtomicBool::new(false);

#[derive(Clone, Copy, PartialEq, Debug)]
enum St {
    Ready,
    /// waits on a simulated futex
    Waiting,
    /// waits in the kernel for something that is not simulated
    Blocked,
    Stalled,
    Done,
}

/// How the length of the next time slice is drawn.
#[derive(Clone, Copy, Debug)]
pub enum Slice {
    /// switch only at call boundaries
    Never,
    /// up to 2^bits basic blocks, spread over the orders of magnitude
    Scale(u64),
    /// up to so many basic blocks, uniformly
    Uniform(u64),
    /// the scheduler is asked at the first executions of every basic block by every thread
    Fresh(u8),
}

/// Where inside a call its thread is frozen.
#[derive(Clone, Copy, Debug)]
pub enum Stall {
    Step(u64),
    Fresh(u64),
}

struct State {
    n: usize,
    turn: usize, // usize::MAX: nobody
    st: [St; MAXT],
    in_call: [bool; MAXT],
    stall_at: [u64; MAXT],
    cap: [u64; MAXT],
    tid: [i32; MAXT],
    /// may give up waiting
    timeout: [bool; MAXT],
    timed_out: [bool; MAXT],
    slice: Slice,
    leave: usize,
    epoch: u64,
    others_done_while_stalled: bool,
    stalled_ever: bool,
    deadlock: bool,
    src: Option<&'static mut Src>,
}
static S: Mutex<State> = Mutex::new(State {
    n: 0,
    turn: usize::MAX,
    st: [St::Done; MAXT],
    in_call: [false; MAXT],
    stall_at: [u64::MAX; MAXT],
    cap: [u64::MAX; MAXT],
    tid: [0; MAXT],
    timeout: [false; MAXT],
    timed_out: [false; MAXT],
    slice: Slice::Never,
    leave: usize::MAX,
    epoch: 0,
    others_done_while_stalled: false,
    stalled_ever: false,
    deadlock: false,
    src: None,
});
/// The address on which each thread waits.
static WAITS: [AtomicUsize; MAXT] = [const { AtomicUsize::new(0) }; MAXT];
/// A thread that waited in the kernel has come back.
static ARRIVED: [AtomicBool; MAXT] = [const { AtomicBool::new(false) }; MAXT];
static CV: [Condvar; MAXT] = [const { Condvar::new() }; MAXT];
static CTL: Condvar = Condvar::new();

fn lock() -> MutexGuard<'static, State> {
    S.lock().unwrap_or_else(|e| e.into_inner())
}

impl State {
    fn draw_slice(&mut self) -> u64 {
        match self.slice {
            Slice::Never | Slice::Fresh(_) => u64::MAX,
            Slice::Uniform(n) => {
                let s = self.src.as_mut().unwrap();
                match s.below(n + 1) {
                    0 => u64::MAX,
                    x => x,
                }
            }
            Slice::Scale(b) => {
                let s = self.src.as_mut().unwrap();
                // 0 (the simplest choice) means: run on until the call ends
                match s.scale(b) {
                    0 => u64::MAX,
                    x => x,
                }
            }
        }
    }
    /// Finds out who of the threads that wait in the kernel has been woken by now.
    fn settle(&mut self) {
        for i in 0..self.n {
            let mut tries = 0;
            while self.st[i] == St::Blocked && tries < 20_000 {
                let sleeps = in_call_sleeping(self.tid[i]);
                if ARRIVED[i].load(Ordering::SeqCst) {
                    self.st[i] = St::Ready;
                } else if sleeps {
                    break;
                } else {
                    // on its way
                    std::thread::sleep(Duration::from_micros(20));
                    tries += 1;
                }
            }
        }
    }
    /// Chooses who runs next among the ready threads; `me` is the thread giving up its turn.
    fn choose(&mut self, me: usize) -> usize {
        self.settle();
        let ready: Vec<usize> = (0..self.n).filter(|i| self.st[*i] == St::Ready).collect();
        if ready.is_empty() {
            self.turn = usize::MAX;
            CTL.notify_all();
            return usize::MAX;
        }
        // the simplest choice is to stay with the same thread, if it can run
        let mut order = ready.clone();
        if let Some(p) = order.iter().position(|i| *i == me) {
            order.remove(p);
            order.insert(0, me);
        }
        let k = self.src.as_mut().unwrap().below(order.len() as u64) as usize;
        let t = order[k];
        self.epoch += 1;
        shm::trace(t as u64 + 1);
        if t != me {
            shm::bump(Stat::SWITCHES, 1);
            if me < MAXT && self.in_call[me] {
                shm::bump(Stat::PREEMPT, 1);
            }
            let inside = (0..self.n).filter(|i| self.in_call[*i]).count() as u64;
            shm::maximum(Stat::MAXTHREADS, inside);
        }
        self.turn = t;
        t
    }
}

fn set_next(g: &State, me: usize, steps: u64, slice: u64) {
    let n = steps.saturating_add(slice).min(g.cap[me]).min(g.stall_at[me]);
    SLOTS[me].next.store(n, Ordering::Relaxed);
}

/// Called by the scheduling point when the thread's time slice is over.
pub fn slow(c: &Ctx, steps: u64) {
    let slot = unsafe { &*c.slot.get() };
    if slot.id == usize::MAX {
        if SOLO_SOFT.load(Ordering::Relaxed) {
            unsafe { libc::_exit(99) }
        }
        shm::violation("step-quota", &format!("the call executed {steps} basic blocks, its step quota, without completing"));
    }
    let me = slot.id;
    ARRIVED[me].store(true, Ordering::SeqCst);
    let mut g = lock();
    if steps >= g.cap[me] {
        drop(g);
        shm::violation(
            "step-quota",
            &format!("a call on thread {me} executed {steps} basic blocks, its step quota, without completing"),
        );
    }
    if g.turn != me {
        // it was blocked in the kernel and has come back
        g.st[me] = St::Ready;
        g = wait_turn(g, me);
    } else {
        let fresh_stall = slot.fresh_stall.load(Ordering::Relaxed) == NOW;
        if steps >= g.stall_at[me] || fresh_stall {
            slot.fresh_stall.store(NEVER, Ordering::Relaxed);
            g.stall_at[me] = u64::MAX;
            g.st[me] = St::Stalled;
            g.stalled_ever = true;
            shm::bump(Stat::F_STALL, 1);
            shm::note(|| format!("  schedule: thread {me} frozen inside its call after {steps} basic blocks"));
        }
        shm::trace((steps << 8) | me as u64);
        let asked = matches!(g.slice, Slice::Fresh(_)) && g.st[me] == St::Ready;
        // most blocks are passed without a switch
        let t = if asked && !g.src.as_mut().unwrap().chance(1, 3) { me } else { g.choose(me) };
        if t != me {
            shm::note(|| format!("  schedule: after {steps} basic blocks of thread {me}, thread {t} runs"));
            if t != usize::MAX {
                CV[t].notify_all();
            }
            g = wait_turn(g, me);
        }
    }
    let sl = g.draw_slice();
    set_next(&g, me, steps, sl);
}

/// The simulated thread that executes library code here, if any.
fn inside(c: &Ctx) -> Option<usize> {
    let slot = c.slot.get();
    if !c.active.get() || slot.is_null() {
        return None;
    }
    let id = unsafe { (*slot).id };
    (id < MAXT).then_some(id)
}

/// A futex wait of library code. `None`: not made by a simulated thread inside a call.
pub fn futex_wait(addr: *const AtomicU32, expected: u32, timeout: bool) -> Option<Result<(), i32>> {
    let me = ctx::with(inside)?;
    ctx::set_active(false);
    let steps = ctx::with(|c| c.steps.get());
    let mut g = lock();
    if g.turn != me {
        // it came back from a wait that is not simulated
        g.st[me] = St::Ready;
        g = wait_turn(g, me);
    }
    let r = if unsafe { (*addr).load(Ordering::SeqCst) } != expected {
        Err(libc::EAGAIN)
    } else {
        shm::bump(Stat::P_BLOCKED, 1);
        shm::note(|| format!("  schedule: thread {me} waits for another one inside its call, after {steps} basic blocks"));
        g.st[me] = St::Waiting;
        g.timeout[me] = timeout;
        g.timed_out[me] = false;
        WAITS[me].store(addr as usize, Ordering::SeqCst);
        shm::trace(steps << 8 | me as u64);
        let t = g.choose(me);
        if t != usize::MAX {
            CV[t].notify_all();
        }
        g = wait_turn(g, me);
        if g.timed_out[me] {
            Err(libc::ETIMEDOUT)
        } else {
            Ok(())
        }
    };
    let sl = g.draw_slice();
    set_next(&g, me, steps, sl);
    drop(g);
    ctx::set_active(true);
    Some(r)
}

/// Wakes up to `n` simulated threads that wait at the address; returns how many.
pub fn futex_wake(addr: usize, n: usize) -> usize {
    if n == 0 || WAITS.iter().all(|w| w.load(Ordering::SeqCst) != addr) {
        return 0;
    }
    let was = ctx::set_active(false);
    let mut g = lock();
    let mut woken = 0;
    while woken < n {
        let all: Vec<usize> = (0..g.n).filter(|i| g.st[*i] == St::Waiting && WAITS[*i].load(Ordering::SeqCst) == addr).collect();
        if all.is_empty() {
            break;
        }
        let k = if all.len() > 1 && n < all.len() { g.src.as_mut().unwrap().below(all.len() as u64) as usize } else { 0 };
        let i = all[k];
        WAITS[i].store(0, Ordering::SeqCst);
        g.st[i] = St::Ready;
        woken += 1;
    }
    drop(g);
    ctx::set_active(was);
    woken
}

/// Library code gives up its turn (`sched_yield`, `nanosleep`). False: it is not simulated here.
pub fn pause() -> bool {
    let Some(me) = ctx::with(inside) else { return false };
    ctx::set_active(false);
    let steps = ctx::with(|c| c.steps.get());
    let mut g = lock();
    if g.turn != me {
        g.st[me] = St::Ready;
        g = wait_turn(g, me);
    }
    // somebody else first, if anybody can run
    g.settle();
    let others: Vec<usize> = (0..g.n).filter(|i| *i != me && g.st[*i] == St::Ready).collect();
    shm::trace(steps << 8 | me as u64);
    if !others.is_empty() {
        let k = g.src.as_mut().unwrap().below(others.len() as u64) as usize;
        let t = others[k];
        g.epoch += 1;
        g.turn = t;
        shm::bump(Stat::SWITCHES, 1);
        CV[t].notify_all();
        g = wait_turn(g, me);
    }
    let sl = g.draw_slice();
    set_next(&g, me, steps, sl);
    drop(g);
    ctx::set_active(true);
    true
}

fn wait_turn(mut g: MutexGuard<'static, State>, me: usize) -> MutexGuard<'static, State> {
    while g.turn != me {
        g = CV[me].wait(g).unwrap_or_else(|e| e.into_inner());
    }
    g
}

/// Handle of a simulated caller thread.
pub struct Th {
    pub id: usize,
    /// does not give up its turn between calls
    pub quiet: bool,
}
impl Th {
    /// Between two calls: another thread may go first.
    pub fn yield_between(&self) {
        if self.quiet {
            return;
        }
        let me = self.id;
        let mut g = lock();
        let t = g.choose(me);
        if t != me {
            if t != usize::MAX {
                CV[t].notify_all();
            }
            let _g = wait_turn(g, me);
        }
    }
    /// Marks the start of a call of at most `cap` steps, optionally frozen at step `stall`.
    pub fn begin_call(&self, cap: u64, stall: Option<Stall>) {
        let me = self.id;
        let mut g = lock();
        if g.turn != me {
            g.st[me] = St::Ready;
            g = wait_turn(g, me);
        }
        g.in_call[me] = true;
        g.cap[me] = cap;
        g.stall_at[me] = NEVER;
        match stall {
            Some(Stall::Step(n)) => g.stall_at[me] = n,
            Some(Stall::Fresh(n)) => SLOTS[me].fresh_stall.store(n, Ordering::Relaxed),
            None => {}
        }
        ctx::with(|c| c.steps.set(0));
        if g.src.as_mut().unwrap().chance(1, 8) {
            let jump = g.src.as_mut().unwrap().scale(45);
            crate::seam::advance_clock(jump);
            shm::bump(Stat::F_CLOCK, 1);
        }
        let sl = g.draw_slice();
        set_next(&g, me, 0, sl);
    }
    /// Marks the end of a call and returns the steps it took.
    pub fn end_call(&self) -> u64 {
        let me = self.id;
        ARRIVED[me].store(true, Ordering::SeqCst);
        let mut g = lock();
        if g.turn != me {
            g.st[me] = St::Ready;
            g = wait_turn(g, me);
        }
        g.in_call[me] = false;
        g.cap[me] = u64::MAX;
        g.stall_at[me] = NEVER;
        SLOTS[me].next.store(NEVER, Ordering::Relaxed);
        SLOTS[me].fresh_stall.store(NEVER, Ordering::Relaxed);
        let s = ctx::with(|c| c.steps.get());
        shm::bump(Stat::STEPS, s);
        s
    }
    /// Draws a choice while holding the turn.
    pub fn draw<R>(&self, f: impl FnOnce(&mut Src) -> R) -> R {
        let mut g = lock();
        let s = g.src.as_mut().unwrap();
        f(s)
    }
    pub fn any_stalled(&self) -> bool {
        let g = lock();
        (0..g.n).any(|i| g.st[i] == St::Stalled)
    }
}

pub struct Report {
    pub deadlock: bool,
    pub stalled_ever: bool,
    pub others_done_while_stalled: bool,
}

pub type Body = Box<dyn FnOnce(&Th) + Send>;

/// Runs the bodies as simulated threads to completion under the scheduler.
pub fn run(bodies: Vec<Body>, slice: Slice, stack: usize, src: &'static mut Src) -> Report {
    let n = bodies.len();
    assert!(n <= MAXT);
    {
        let mut g = lock();
        g.n = n;
        g.turn = usize::MAX;
        g.slice = slice;
        g.src = Some(src);
        g.leave = usize::MAX;
        g.stalled_ever = false;
        g.others_done_while_stalled = false;
        let (lim, mode) = match slice {
            Slice::Fresh(n) => (n.max(1), true),
            _ => (1, false),
        };
        LIMIT.store(lim, Ordering::Relaxed);
        FRESH_MODE.store(mode, Ordering::Relaxed);
        for i in 0..n {
            g.st[i] = St::Ready;
            g.tid[i] = 0;
            WAITS[i].store(0, Ordering::SeqCst);
        }
    }
    let was = (n > 1).then(stay);
    let mut hs = Vec::new();
    for (i, b) in bodies.into_iter().enumerate() {
        hs.push(
            std::thread::Builder::new()
                .stack_size(stack)
                .spawn(move || {
                    ctx::with(|c| c.slot.set(&SLOTS[i]));
                    {
                        let mut g = lock();
                        g.tid[i] = unsafe { libc::syscall(libc::SYS_gettid) } as i32;
                        CTL.notify_all();
                        let _g = wait_turn(g, i);
                    }
                    let th = Th { id: i, quiet: false };
                    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| b(&th)));
                    if let Err(p) = r {
                        ctx::unexpected(p);
                    }
                    let mut g = lock();
                    if g.turn != i && g.turn != usize::MAX {
                        g = wait_turn(g, i);
                    }
                    g.st[i] = St::Done;
                    ctx::with(|c| c.slot.set(std::ptr::null()));
                    let t = g.choose(i);
                    if t != usize::MAX {
                        CV[t].notify_all();
                    }
                    CTL.notify_all();
                    // threads end one after another, when all are done
                    while g.leave != i {
                        g = CV[i].wait(g).unwrap_or_else(|e| e.into_inner());
                    }
                })
                .unwrap_or_else(|_| shm::harness_error("cannot spawn thread")),
        );
        // one after another, so that what they allocate while starting is in a fixed order
        let mut g = lock();
        while g.tid[i] == 0 {
            g = CTL.wait(g).unwrap_or_else(|e| e.into_inner());
        }
    }
    let mut g = lock();
    let t = g.choose(usize::MAX);
    CV[t].notify_all();
    let mut sleeping = 0;
    let mut idle = 0;
    let mut last = (usize::MAX, u64::MAX);
    loop {
        if (0..n).all(|i| g.st[i] == St::Done) {
            break;
        }
        if g.turn == usize::MAX {
            g.settle();
            if (0..n).any(|i| g.st[i] == St::Ready) {
                g.choose(usize::MAX);
                CV[g.turn].notify_all();
                idle = 0;
                continue;
            }
            if let Some(i) = (0..n).find(|i| g.st[*i] == St::Waiting && g.timeout[*i]) {
                // its time is over
                g.st[i] = St::Ready;
                g.timed_out[i] = true;
                WAITS[i].store(0, Ordering::SeqCst);
                seam_clock();
                continue;
            }
            let stalled: Vec<usize> = (0..n).filter(|i| g.st[*i] == St::Stalled).collect();
            let kernel = (0..n).any(|i| g.st[i] == St::Blocked);
            idle += 1;
            if kernel && idle < 100 {
                // it may wake by itself
                let (ng, _) = CTL.wait_timeout(g, Duration::from_millis(4)).unwrap_or_else(|e| e.into_inner());
                g = ng;
                continue;
            }
            if kernel || (0..n).any(|i| g.st[i] == St::Waiting) {
                // everything that can run has run: what is left waits in the kernel for a call that
                // is frozen (or for itself)
                g.deadlock = true;
                let rep = Report {
                    deadlock: true,
                    stalled_ever: g.stalled_ever,
                    others_done_while_stalled: false,
                };
                // the process exits with the verdict; blocked threads are abandoned
                drop(g);
                return rep;
            }
            if !stalled.is_empty() {
                g.others_done_while_stalled = true;
                for i in stalled {
                    g.st[i] = St::Ready;
                }
                g.choose(usize::MAX);
                let t = g.turn;
                CV[t].notify_all();
            }
        }
        let (ng, _) = CTL.wait_timeout(g, Duration::from_millis(4)).unwrap_or_else(|e| e.into_inner());
        g = ng;
        let t = g.turn;
        if t != usize::MAX {
            let key = (t, g.epoch);
            if key == last && in_call_sleeping(g.tid[t]) {
                sleeping += 1;
            } else {
                sleeping = 0;
            }
            last = key;
            if sleeping >= 6 && g.st[t] == St::Ready {
                // The running thread sleeps in the kernel: it waits for another thread.
                shm::bump(Stat::P_BLOCKED, 1);
                shm::note(|| format!("  schedule: thread {t} is blocked in the kernel inside its call"));
                g.st[t] = St::Blocked;
                ARRIVED[t].store(false, Ordering::SeqCst);
                SLOTS[t].next.store(0, Ordering::Relaxed);
                sleeping = 0;
                let x = g.choose(t);
                if x != usize::MAX {
                    CV[x].notify_all();
                }
            }
        }
    }
    let rep = Report {
        deadlock: false,
        stalled_ever: g.stalled_ever,
        others_done_while_stalled: g.others_done_while_stalled,
    };
    g.src = None;
    drop(g);
    for (i, h) in hs.into_iter().enumerate() {
        lock().leave = i;
        CV[i].notify_all();
        let _ = h.join();
    }
    if let Some(set) = was {
        unsafe { libc::sched_setaffinity(0, std::mem::size_of_val(&set), &set) };
    }
    rep
}
/// All threads on the processor they start on: only one of them executes at a time.
fn stay() -> libc::cpu_set_t {
    unsafe {
        let mut was: libc::cpu_set_t = std::mem::zeroed();
        libc::sched_getaffinity(0, std::mem::size_of_val(&was), &mut was);
        let cpu = libc::sched_getcpu();
        if cpu >= 0 {
            let mut set: libc::cpu_set_t = std::mem::zeroed();
            libc::CPU_SET(cpu as usize, &mut set);
            libc::sched_setaffinity(0, std::mem::size_of_val(&set), &set);
        }
        was
    }
}

/// A wait with a time limit takes that time.
fn seam_clock() {
    crate::seam::advance_clock(1_000_000_000);
}

fn in_call_sleeping(tid: i32) -> bool {
    let Ok(s) = std::fs::read_to_string(format!("/proc/self/task/{tid}/stat")) else {
        return false;
    };
    match s.rfind(')') {
        Some(p) => s[p + 1..].trim_start().starts_with('S'),
        None => false,
    }
}

/// For a thread that is alone in the simulation: only a step cap.
pub fn solo(cap: u64, soft: bool) {
    SOLO_SOFT.store(soft, Ordering::Relaxed);
    ctx::with(|c| {
        c.steps.set(0);
        SOLO.next.store(cap, Ordering::Relaxed);
        c.slot.set(&SOLO);
    })
}
pub fn solo_steps() -> u64 {
    ctx::with(|c| {
        let s = c.steps.get();
        shm::bump(Stat::STEPS, s);
        s
    })
}
pub fn solo_end() {
    ctx::with(|c| c.slot.set(std::ptr::null()));
}
