//! Runs simulations in forked processes, shrinks and stores violations, writes evidence.
use simrt::shm::{self, Shm, Stat, N_STATS, STAT_NAMES};
use simrt::src::mix;
use simrt::{ctx, seam, Src};
use std::collections::HashSet;
use std::io::{Read, Write};
use std::time::{Duration, Instant};

pub struct Prop {
    pub id: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub rule: &'static str,
    pub assume: &'static [&'static str],
}
const COMMON: &str = "one run = one seed; every choice (documents, calls, schedule, faults) is drawn from it";
pub const PROPS: &[Prop] = &[
    Prop { id: "C01", quick: 8000, thorough: 400_000, rule: "2-5 caller threads (now and then 9-34) with 1-4 calls each and 0-2 documents shared by reference; non-trivial when at least one thread was preempted inside a library call; distinct by hash of the executed schedule (thread, basic-block count at every switch) and call lengths", assume: &["sequentially consistent memory: one thread executes at a time, weak-memory reorderings are not simulated"] },
    Prop { id: "C02", quick: 5000, thorough: 200_000, rule: "histories of 2-120 calls (some of 300 and 65536) with injected faults on 1-3 threads, every call compared with the same call in a fresh process; every run is non-trivial; distinct by hash of call lengths and faults", assume: &[] },
    Prop { id: "C03", quick: 10000, thorough: 400_000, rule: "1-10 threads, calls frozen at a seeded basic block or entered again from a callback; non-trivial when a call was frozen or nested; distinct by schedule hash", assume: &["a thread asleep in the kernel for 24 ms while it is the only one allowed to run is blocked"] },
    Prop { id: "C04", quick: 80000, thorough: 2_000_000, rule: "displayable values rendered into writers that fail, fill up, panic, are interrupted or accept short writes, then into a working one; non-trivial when a writer failed; distinct by hash of rendering lengths and choices", assume: &[] },
    Prop { id: "C05", quick: 30000, thorough: 600_000, rule: "1-8 calls with a text type that panics at a seeded callback, documents existing before; non-trivial when a panic fired; distinct by hash", assume: &[] },
    Prop { id: "C06", quick: 20000, thorough: 500_000, rule: "1-4 calls, each with 1-10 failing allocations (single or persistent), retry and leak measurement; non-trivial when an allocation failed; distinct by hash", assume: &["the allocation-failure path is observed through std's alloc error hook, which unwinds instead of aborting"] },
    Prop { id: "C07", quick: 6000, thorough: 1_000_000, rule: "1-8 definitions sent over a network that fragments, stalls, duplicates, reorders and drops, to a receiver that restarts; non-trivial when everything was delivered; distinct by hash of consume calls", assume: &["the network, the receiver's buffer and its durable offset are the simulator's"] },
    Prop { id: "C08", quick: 40000, thorough: 1_000_000, rule: "histories of saves or appends with write faults, failed syncs, crashes and recoveries; non-trivial when at least one save was acknowledged and read back; distinct by hash", assume: &["the disk (page cache, sync, rename, torn and lost unsynced writes) is a model"] },
    Prop { id: "C09", quick: 24000, thorough: 1_000_000, rule: "a document torn at seeded bytes (at every byte when short), or with a zeroed tail; non-trivial always; distinct by hash", assume: &[] },
    Prop { id: "C10", quick: 60000, thorough: 1_000_000, rule: "1-5 stored documents with 0-4 storage faults each, loaded through every entry point on a 2 MiB stack, then rendered, cloned, compared, converted and dropped; non-trivial always; distinct by hash", assume: &["bytes that are not UTF-8 reach the library as U+FFFD, as from String::from_utf8_lossy"] },
    Prop { id: "C11", quick: 7000, thorough: 120_000, rule: "growth pairs, nesting bombs, long legal documents and large inputs on a 2 MiB stack under memory and step quotas; non-trivial always; distinct by hash", assume: &["stack use is that of an unoptimised build with instrumentation, which is larger than a release build's", "steps inside precompiled std code are not counted"] },
    Prop { id: "C12", quick: 30000, thorough: 500_000, rule: "1-6 owned results made on 1-3 threads, their sources overwritten and freed, used and dropped on any thread; non-trivial when a source was destroyed; distinct by hash", assume: &[] },
];
pub fn prop(id: &str) -> Option<&'static Prop> {
    PROPS.iter().find(|p| p.id == id)
}

fn body(id: &str, src: &'static mut Src, index: u64, thorough: bool) {
    match id {
        "C01" => crate::conc::c01(src),
        "C02" => crate::conc::c02(src),
        "C03" => crate::conc::c03(src),
        "C04" => crate::faults::c04(src),
        "C05" => crate::faults::c05(src),
        "C06" => crate::faults::c06(src),
        "C07" => crate::net::c07(src),
        "C08" => crate::disk::c08(src),
        "C09" => crate::disk::c09(src),
        "C10" => crate::hostile::c10(src),
        "C11" => crate::hostile::c11(src, thorough),
        "C12" => crate::faults::c12(src),
        _ => shm::harness_error("unknown property"),
    }
}

#[derive(Clone)]
pub enum Input {
    Seed(u64),
    Tape(&'static [u64]),
}
#[derive(Clone, PartialEq, Debug)]
pub enum End {
    Ok,
    Violation(String, String),
    Harness(String),
}

// A library call that never ends is noticed by its step count where it runs instrumented code. What
// is left (a loop inside std, a wait in the kernel) is noticed here: no call begins and no choice is
// drawn while the process uses `limit`/2 seconds of processor time, or uses none for as long. How
// long a run takes on a busy machine does not matter.
static mut LAST: (u64, u64) = (0, 0);
static mut BUSY: (u64, u64, u32) = (0, 0, 0);
static mut TICK: u64 = 15;
extern "C" fn on_tick(_: libc::c_int) {
    unsafe {
        let mut ru: libc::rusage = std::mem::zeroed();
        libc::getrusage(libc::RUSAGE_SELF, &mut ru);
        let cpu = ((ru.ru_utime.tv_sec + ru.ru_stime.tv_sec) * 1000 + (ru.ru_utime.tv_usec + ru.ru_stime.tv_usec) / 1000) as u64;
        let (last_cpu, mut used, mut idle) = BUSY;
        let now = match shm::get() {
            Some(m) => (m.stats[Stat::CALLS as usize], m.tape_len),
            None => (0, 0),
        };
        let waiting = crate::ops::WAITING.load(std::sync::atomic::Ordering::Relaxed);
        if now != LAST || waiting {
            used = 0;
            idle = 0;
        } else {
            used += cpu - last_cpu;
            idle = if cpu - last_cpu < 5 { idle + 1 } else { 0 };
        }
        LAST = now;
        BUSY = (cpu, used, idle);
        if used >= TICK * 2000 || idle >= 3 {
            libc::signal(libc::SIGALRM, libc::SIG_DFL);
            libc::raise(libc::SIGALRM);
        }
    }
}
unsafe fn watch(limit: u32) {
    TICK = (limit as u64 / 4).max(1);
    let mut sa: libc::sigaction = std::mem::zeroed();
    sa.sa_sigaction = on_tick as *const () as usize;
    sa.sa_flags = libc::SA_RESTART;
    libc::sigaction(libc::SIGALRM, &sa, std::ptr::null_mut());
    let t = libc::timeval { tv_sec: TICK as i64, tv_usec: 0 };
    let it = libc::itimerval { it_interval: t, it_value: t };
    libc::setitimer(libc::ITIMER_REAL, &it, std::ptr::null_mut());
}

/// One simulated run in a forked process.
pub fn execute(m: &'static mut Shm, id: &str, input: &Input, index: u64, thorough: bool, limit: u32) -> (End, &'static mut Shm) {
    m.status = 0;
    m.nontrivial = 0;
    m.oom = 0;
    m.trace_hash = 0;
    m.log_len = 0;
    unsafe {
        let pid = libc::fork();
        if pid < 0 {
            return (End::Harness("fork failed".into()), m);
        }
        if pid == 0 {
            libc::setpgid(0, 0);
            watch(limit);
            if std::env::var_os("GQSIM_STDERR").is_none() {
                let n = libc::open(c"/dev/null".as_ptr(), libc::O_WRONLY);
                libc::dup2(n, 2);
            }
            seam::arena_on();
            ctx::init_process();
            let src: *mut Src = Box::into_raw(Box::new(match input {
                Input::Seed(s) => Src::generate(*s),
                Input::Tape(t) => Src::replay(t),
            }));
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(move || {
                let src: &'static mut Src = &mut *src;
                seam::set_random(src.bits());
                seam::reuse_fifo(src.chance(1, 4));
                seam::fill(*src.pick(&[b'a', b'#', b'"', b'%', b'{', b'0', 0, b' ']));
                seam::set_clock(src.bits() >> 3);
                body(id, src, index, thorough)
            }));
            ctx::set_active(false);
            if let Err(p) = r {
                ctx::unexpected(p);
            }
            shm::done();
        }
        let mut st = 0;
        while libc::waitpid(pid, &mut st, 0) < 0 {}
        // whatever it left behind (a hanging solo process) goes with it
        libc::kill(-pid, libc::SIGKILL);
        let e = if libc::WIFSIGNALED(st) {
            let sig = libc::WTERMSIG(st);
            let (class, what) = match sig {
                // parts of std that cannot be unwound (B-tree internals) stop the process there,
                // as every failed allocation does in a program without the simulator's hook
                libc::SIGILL if m.oom == 1 => {
                    m.stats[Stat::P_OOM_ABORT as usize] += 1;
                    return (End::Ok, m);
                }
                libc::SIGALRM => ("hang", "did not end"),
                libc::SIGKILL => return (End::Harness("a run was killed from outside".into()), m),
                _ => ("crash", "crashed the process"),
            };
            End::Violation(format!("{class}-{sig}"), format!("a library call {what} (signal {sig})"))
        } else {
            match (libc::WEXITSTATUS(st), m.status) {
                (0, 3) => End::Ok,
                (_, 1) => End::Violation(
                    String::from_utf8_lossy(&m.class[..m.class_len as usize]).into(),
                    String::from_utf8_lossy(&m.msg[..m.msg_len as usize]).into(),
                ),
                (_, 2) => End::Harness(String::from_utf8_lossy(&m.msg[..m.msg_len as usize]).into()),
                (c, s) => End::Violation("exit".into(), format!("the process ended inside a library call (exit status {c}, {s})")),
            }
        };
        (e, m)
    }
}
fn run_seed(seed: u64, id: &str, index: u64) -> u64 {
    let p = id.bytes().fold(0u64, |a, b| a * 256 + b as u64);
    mix(mix(seed, p), index)
}

struct Found {
    index: u64,
    class: String,
    tape: Vec<u64>,
}
#[derive(Default)]
struct Sum {
    runs: u64,
    nontrivial: u64,
    hashes: HashSet<u64>,
    all_hashes: HashSet<u64>,
    stats: Vec<u64>,
    cov: Vec<u8>,
    found: Vec<Found>,
    harness: Vec<String>,
    flaky: Vec<String>,
    sample: Option<u64>,
    next_index: u64,
}

#[repr(C)]
struct Board {
    stop: u64,
}

/// Runs `indices` in `workers` processes until done or out of time.
fn sweep(id: &'static str, seed: u64, from: u64, runs: u64, workers: u64, wall: Duration, thorough: bool, keep_hashes: bool) -> Sum {
    let start = Instant::now();
    let board: &'static mut Board = unsafe {
        let p = libc::mmap(std::ptr::null_mut(), 4096, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_ANONYMOUS, -1, 0);
        &mut *(p as *mut Board)
    };
    let stop = unsafe { std::sync::atomic::AtomicU64::from_ptr(&mut board.stop) };
    let mut pipes = Vec::new();
    for w in 0..workers {
        let mut fds = [0; 2];
        unsafe { libc::pipe(fds.as_mut_ptr()) };
        let pid = unsafe { libc::fork() };
        if pid == 0 {
            unsafe {
                libc::close(fds[0]);
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            }
            let mut m = shm::create();
            let mut out = String::new();
            let mut i = from + w;
            let (mut n, mut nontrivial) = (0u64, 0u64);
            let mut hashes: Vec<(u64, u64, u64)> = Vec::new();
            while i < from + runs && start.elapsed() < wall && stop.load(std::sync::atomic::Ordering::Relaxed) == 0 {
                let s = run_seed(seed, id, i);
                let (mut e, m2) = execute(m, id, &Input::Seed(s), i, thorough, 60);
                m = m2;
                if matches!(e, End::Harness(_)) {
                    // ended from outside (out of memory, say): once more
                    let (e2, m2) = execute(m, id, &Input::Seed(s), i, thorough, 60);
                    (e, m) = (e2, m2);
                }
                n += 1;
                nontrivial += m.nontrivial;
                hashes.push((i, m.trace_hash, m.nontrivial));
                match e {
                    End::Ok => {}
                    End::Violation(class, _) => {
                        // only what happens again, from the same choices in a fresh process, counts
                        let tape = m.tape[..m.tape_len as usize].to_vec();
                        let mut again = 0;
                        for _ in 0..3 {
                            let (e, m2) = run_tape(m, id, &tape, i, thorough, 60);
                            m = m2;
                            again += matches!(&e, End::Violation(c, _) if *c == class) as u32;
                        }
                        if again < 2 {
                            out.push_str(&format!("flaky {i} {} {again}\n", class.replace(' ', "_")));
                        } else {
                            stop.store(1, std::sync::atomic::Ordering::Relaxed);
                            let tape: Vec<String> = tape.iter().map(|x| format!("{x:x}")).collect();
                            out.push_str(&format!("found {i} {} {}\n", class.replace(' ', "_"), tape.join(",")));
                        }
                    }
                    End::Harness(e) => {
                        stop.store(1, std::sync::atomic::Ordering::Relaxed);
                        out.push_str(&format!("harness run {i} (seed {s}): {}\n", e.replace('\n', " ")));
                    }
                }
                i += workers;
            }
            out.push_str(&format!("runs {n} {nontrivial}\n"));
            for (i, h, t) in &hashes {
                out.push_str(&format!("h {i:x} {h:x} {t}\n"));
            }
            out.push_str("stats");
            for x in m.stats {
                out.push_str(&format!(" {x}"));
            }
            out.push_str("\ncov ");
            for (k, c) in m.cov.iter().enumerate() {
                if *c != 0 {
                    out.push_str(&format!("{k:x},"));
                }
            }
            out.push('\n');
            let mut f = unsafe { <std::fs::File as std::os::fd::FromRawFd>::from_raw_fd(fds[1]) };
            let _ = f.write_all(out.as_bytes());
            drop(f);
            unsafe { libc::_exit(0) };
        }
        unsafe { libc::close(fds[1]) };
        pipes.push((pid, fds[0]));
    }
    let mut sum = Sum { stats: vec![0; N_STATS], cov: vec![0; shm::COV_CAP], ..Sum::default() };
    let mut sample: Option<u64> = None;
    for (pid, fd) in pipes {
        let mut t = String::new();
        let mut f = unsafe { <std::fs::File as std::os::fd::FromRawFd>::from_raw_fd(fd) };
        let _ = f.read_to_string(&mut t);
        let mut complete = false;
        for l in t.lines() {
            let mut w = l.split(' ');
            match w.next() {
                Some("found") => {
                    let index = w.next().unwrap().parse().unwrap();
                    let class = w.next().unwrap().to_string();
                    let tape = w.next().unwrap_or("").split(',').filter(|x| !x.is_empty()).map(|x| u64::from_str_radix(x, 16).unwrap()).collect();
                    sum.found.push(Found { index, class, tape });
                }
                Some("flaky") => sum.flaky.push(l[6..].to_string()),
                Some("harness") => sum.harness.push(l[8..].to_string()),
                Some("runs") => {
                    sum.runs += w.next().unwrap().parse::<u64>().unwrap();
                    sum.nontrivial += w.next().unwrap().parse::<u64>().unwrap();
                }
                Some("h") => {
                    let i = u64::from_str_radix(w.next().unwrap(), 16).unwrap();
                    let h = u64::from_str_radix(w.next().unwrap(), 16).unwrap();
                    let nt = w.next() == Some("1");
                    if keep_hashes {
                        sum.all_hashes.insert(mix(i, h));
                    } else {
                        sum.all_hashes.insert(h);
                    }
                    if nt {
                        sum.hashes.insert(h);
                        sample = Some(sample.map_or(i, |s| s.min(i)));
                    }
                }
                Some("stats") => {
                    for (k, x) in w.enumerate() {
                        let x: u64 = x.parse().unwrap();
                        if STAT_NAMES[k].starts_with("max_") {
                            sum.stats[k] = sum.stats[k].max(x);
                        } else {
                            sum.stats[k] += x;
                        }
                    }
                }
                Some("cov") => {
                    complete = true;
                    for k in w.next().unwrap_or("").split(',').filter(|x| !x.is_empty()) {
                        sum.cov[usize::from_str_radix(k, 16).unwrap()] = 1;
                    }
                }
                _ => {}
            }
        }
        let mut st = 0;
        unsafe { libc::waitpid(pid, &mut st, 0) };
        if !complete {
            sum.harness.push(format!("a worker ended early (status {st})"));
        }
    }
    sum.sample = sample;
    sum.next_index = from + runs;
    sum.found.sort_by_key(|f| f.index);
    sum
}

/// Runs a tape; the choices actually made and their spans are in `m` afterwards.
fn run_tape(m: &'static mut Shm, id: &str, tape: &[u64], index: u64, thorough: bool, limit: u32) -> (End, &'static mut Shm) {
    let t: &'static [u64] = Box::leak(tape.to_vec().into_boxed_slice());
    let r = execute(m, id, &Input::Tape(t), index, thorough, limit);
    unsafe { drop(Box::from_raw(t as *const [u64] as *mut [u64])) };
    r
}

/// Removes and simplifies choices while the same class of violation persists.
fn shrink(mut m: &'static mut Shm, id: &str, f: &Found, thorough: bool, budget: Duration) -> (Vec<u64>, &'static mut Shm, u64) {
    let start = Instant::now();
    let mut best = f.tape.clone();
    let mut tried = 0u64;
    let limit = if f.class.starts_with("hang") { 8 } else { 30 };
    macro_rules! attempt {
        ($t:expr) => {{
            tried += 1;
            let t: Vec<u64> = $t;
            let (e, m2) = run_tape(m, id, &t, f.index, thorough, limit);
            m = m2;
            match e {
                End::Violation(c, _) if c == f.class => {
                    let n = (m.tape_len as usize).min(t.len());
                    let mut made = m.tape[..n].to_vec();
                    while made.last() == Some(&0) {
                        made.pop();
                    }
                    if made.len() < best.len() || (made.len() == best.len() && made < best) {
                        best = made;
                        true
                    } else {
                        false
                    }
                }
                _ => false,
            }
        }};
    }
    // normalise
    attempt!(best.clone());
    let mut progress = true;
    while progress && start.elapsed() < budget {
        progress = false;
        // whole units, larger ones first
        let (_, m2) = run_tape(m, id, &best, f.index, thorough, limit);
        m = m2;
        let mut spans: Vec<(usize, usize)> = m.spans[..m.span_len as usize].iter().map(|s| (s.0 as usize, s.1 as usize)).collect();
        spans.sort_by_key(|s| std::cmp::Reverse(s.1 - s.0));
        let mut gone = 0;
        for (a, b) in spans {
            if start.elapsed() > budget {
                break;
            }
            if b > best.len() || gone > 0 && b > best.len().saturating_sub(gone) {
                continue;
            }
            let mut t = best.clone();
            t.drain(a..b);
            let n = best.len();
            if attempt!(t) {
                progress = true;
                gone += n - best.len();
            }
        }
        // the end of the tape
        let mut k = best.len() / 2;
        while k > 0 && start.elapsed() < budget {
            let t = best[..best.len() - k.min(best.len())].to_vec();
            if attempt!(t) {
                progress = true;
            } else {
                k /= 2;
            }
            k = k.min(best.len());
        }
        // blocks of choices: simplest
        let mut size = (best.len() / 2).clamp(1, 64);
        loop {
            let mut i = 0;
            while i < best.len() && start.elapsed() < budget {
                let e = (i + size).min(best.len());
                if best[i..e].iter().any(|x| *x != 0) {
                    let mut t = best.clone();
                    t[i..e].iter_mut().for_each(|x| *x = 0);
                    if attempt!(t) {
                        progress = true;
                    } else if size <= 4 {
                        let mut t = best.clone();
                        t.drain(i..e);
                        if attempt!(t) {
                            progress = true;
                        }
                    }
                }
                i += size;
            }
            if size == 1 {
                break;
            }
            size /= 2;
        }
        // single choices: smaller
        let mut i = 0;
        while i < best.len() && start.elapsed() < budget {
            let mut v = best[i];
            while v > 0 && i < best.len() && start.elapsed() < budget {
                let mut t = best.clone();
                t[i] = v / 2;
                if attempt!(t) {
                    progress = true;
                    v = best.get(i).copied().unwrap_or(0);
                } else {
                    break;
                }
            }
            i += 1;
        }
    }
    (best, m, tried)
}

fn arg(args: &[String], name: &str) -> Option<String> {
    args.iter().position(|a| a == name).and_then(|i| args.get(i + 1).cloned())
}
fn json(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn prepare() {
    // the same addresses in every process: no address-space randomisation
    unsafe {
        let p = libc::personality(0xffffffff);
        if p >= 0 && p & libc::ADDR_NO_RANDOMIZE == 0 && std::env::var_os("GQSIM_ASLR").is_none() {
            std::env::set_var("GQSIM_ASLR", "1");
            if libc::personality((p | libc::ADDR_NO_RANDOMIZE) as libc::c_ulong) >= 0 {
                use std::os::unix::process::CommandExt;
                let e = std::process::Command::new("/proc/self/exe").args(std::env::args_os().skip(1)).exec();
                let _ = e;
            }
        }
    }
    seam::map_arena();
}
fn hash_id(tape: &[u64]) -> u64 {
    tape.iter().fold(tape.len() as u64, |a, b| mix(a, *b))
}

/// (property, class, what fails) of the findings that are recorded and not repaired.
fn known(root: &str) -> Vec<(String, String, String)> {
    std::fs::read_to_string(format!("{root}/known-findings.txt"))
        .unwrap_or_default()
        .lines()
        .filter_map(|l| l.strip_prefix("finding: property="))
        .filter_map(|l| {
            let (id, rest) = l.split_once(" class=")?;
            let (class, what) = rest.split_once(' ')?;
            Some((id.to_string(), class.to_string(), what.to_string()))
        })
        .collect()
}

pub fn check(args: &[String]) -> i32 {
    prepare();
    let Some(p) = args.first().and_then(|a| prop(a)) else {
        eprintln!("no such property");
        return 2;
    };
    let tier = arg(args, "--tier").or_else(|| std::env::var("VERIF_TIER").ok()).unwrap_or("quick".into());
    let thorough = tier == "thorough";
    let seed: u64 = arg(args, "--seed").or_else(|| std::env::var("VERIF_SEED").ok()).and_then(|s| s.parse().ok()).unwrap_or(1);
    let runs = arg(args, "--runs").and_then(|s| s.parse().ok()).unwrap_or(if thorough { p.thorough } else { p.quick });
    let workers = arg(args, "--workers").and_then(|s| s.parse().ok()).unwrap_or_else(|| {
        std::thread::available_parallelism().map(|n| n.get() as u64).unwrap_or(8).min(16)
    });
    let wall = Duration::from_secs(arg(args, "--wall").and_then(|s| s.parse().ok()).unwrap_or(if thorough { 600 } else { 300 }));
    let root = arg(args, "--root").unwrap_or("/verif".into());
    let start = Instant::now();
    let known = known(&root);
    let _ = shm::KNOWN.set(known.iter().filter(|k| k.0 == p.id).map(|k| k.1.clone()).collect());
    let sum = sweep(p.id, seed, 0, runs, workers, wall, thorough, false);
    let took = start.elapsed().as_secs_f64();
    for h in &sum.harness {
        eprintln!("simulator error: {h}");
    }
    let mut m = shm::create();
    let mut reported: Option<(String, String, String)> = None;
    let unreproducible = sum.flaky.len() as u64;
    for f in &sum.flaky {
        eprintln!("not reproduced (run, class, times out of 3): {f}");
    }
    let mut shrunk = (0usize, 0usize, 0u64);
    if let Some(f) = sum.found.first() {
        let budget = Duration::from_secs(if thorough { 90 } else { 25 });
        let (best, m2, tried) = shrink(m, p.id, f, thorough, budget);
        m = m2;
        shrunk = (f.tape.len(), best.len(), tried);
        m.verbose = 1;
        let (e, m2) = run_tape(m, p.id, &best, f.index, thorough, 60);
        m = m2;
        m.verbose = 0;
        let (class, msg) = match e {
            End::Violation(c, s) => (c, s),
            _ => (f.class.clone(), "(see the replay)".into()),
        };
        let log = String::from_utf8_lossy(&m.log[..m.log_len as usize]).into_owned();
        let dir = format!("{root}/replays");
        let _ = std::fs::create_dir_all(&dir);
        let path = format!("{dir}/{}-{:016x}.replay", p.id, hash_id(&best));
        let tape: Vec<String> = best.iter().map(|x| format!("{x:x}")).collect();
        let text = format!(
            "gqsim-replay 1\nproperty={}\nseed={seed}\nindex={}\ntier={tier}\nclass={class}\nmessage={}\ntape={}\nlog:\n{log}",
            p.id,
            f.index,
            msg.replace('\n', "\\n"),
            tape.join(",")
        );
        if std::fs::write(&path, text).is_err() {
            eprintln!("cannot write {path}");
            return 2;
        }
        reported = Some((path, class, msg));
    }
    // one run written out, as a sample
    let mut samples = Vec::new();
    if let Some(i) = sum.sample {
        m.verbose = 1;
        let (_, m2) = execute(m, p.id, &Input::Seed(run_seed(seed, p.id, i)), i, thorough, 60);
        m = m2;
        m.verbose = 0;
        let log: String = String::from_utf8_lossy(&m.log[..m.log_len as usize]).chars().take(4000).collect();
        samples.push(format!("run {i} (seed {}): {}", run_seed(seed, p.id, i), log));
    }
    let _ = m;
    let violations = reported.is_some() as u64;
    write_evidence(&root, p, &tier, seed, &sum, took, start.elapsed().as_secs_f64(), &samples, violations, unreproducible, workers, shrunk);
    if let Some((path, class, msg)) = reported {
        println!("{class}: {msg}");
        println!("VIOLATION property={} replay={path}", p.id);
        return 1;
    }
    if !sum.harness.is_empty() {
        return 2;
    }
    if sum.stats[Stat::KNOWN as usize] > 0 {
        for k in known.iter().filter(|k| k.0 == p.id) {
            println!("KNOWN-FINDING: property={} {}", p.id, k.2);
        }
    }
    if unreproducible > 2 {
        // a violation that does not replay is no verdict, and so many mean that something here is
        // not under the simulator's control
        eprintln!("{unreproducible} violations did not reproduce");
        return 2;
    }
    println!(
        "{}: held on {} simulated runs ({} distinct non-trivial), {:.1} s",
        p.id,
        sum.runs,
        sum.hashes.len(),
        start.elapsed().as_secs_f64()
    );
    0
}

#[allow(clippy::too_many_arguments)]
fn write_evidence(
    root: &str,
    p: &Prop,
    tier: &str,
    seed: u64,
    sum: &Sum,
    took: f64,
    wall: f64,
    samples: &[String],
    violations: u64,
    unreproducible: u64,
    workers: u64,
    shrunk: (usize, usize, u64),
) {
    let mut counts = String::new();
    for (k, n) in STAT_NAMES.iter().enumerate() {
        if sum.stats[k] > 0 {
            counts.push_str(&format!("      {}: {},\n", json(n), sum.stats[k]));
        }
    }
    counts.push_str(&format!("      \"basic_blocks_reached\": {}", sum.cov.iter().filter(|c| **c != 0).count()));
    let steps = sum.stats[Stat::STEPS as usize];
    let samples: Vec<String> = samples.iter().map(|s| json(s)).collect();
    let mut assume: Vec<String> = vec![json(COMMON), json("thread scheduling, allocation, addresses, hash seeds, clocks, caller text and writer callbacks, transport and storage are the simulator's; the whole of graphql-parser and combine is real code")];
    assume.extend(p.assume.iter().map(|a| json(a)));
    let text = format!(
        "{{\n  \"property\": {},\n  \"tier\": {},\n  \"seed\": {seed},\n  \"level\": \"exploration\",\n  \"coverage\": {{\n    \"evaluations\": {},\n    \"distinct_nontrivial\": {},\n    \"nontrivial_runs\": {},\n    \"distinct_executions\": {},\n    \"rule\": {},\n    \"runs_per_hour\": {:.0},\n    \"simulated_basic_blocks\": {steps},\n    \"worker_processes\": {workers},\n    \"unreproducible\": {unreproducible},\n    \"minimised\": {},\n    \"real_components\": [\"graphql-parser (all of it, from /repo)\", \"combine\", \"std\"],\n    \"stubbed_components\": [\"thread scheduler\", \"allocator\", \"getrandom\", \"clock\", \"caller text type\", \"writers\", \"network\", \"disk\"],\n    \"counts\": {{\n{counts}\n    }},\n    \"samples\": [{}]\n  }},\n  \"assumptions\": [{}],\n  \"wall_s\": {wall:.3},\n  \"violations\": {violations}\n}}\n",
        json(p.id),
        json(tier),
        sum.runs,
        sum.hashes.len(),
        sum.nontrivial,
        sum.all_hashes.len(),
        json(p.rule),
        sum.runs as f64 / took * 3600.0,
        if violations > 0 { json(&format!("{} choices to {} in {} executions", shrunk.0, shrunk.1, shrunk.2)) } else { "null".into() },
        samples.join(", "),
        assume.join(", "),
    );
    let dir = format!("{root}/evidence");
    let _ = std::fs::create_dir_all(&dir);
    if std::fs::write(format!("{dir}/{}.json", p.id), text).is_err() {
        eprintln!("cannot write the evidence file");
    }
}

pub fn replay(args: &[String]) -> i32 {
    prepare();
    let Some(text) = args.first().and_then(|f| std::fs::read_to_string(f).ok()) else {
        eprintln!("cannot read the replay file");
        return 2;
    };
    let get = |k: &str| text.lines().find_map(|l| l.strip_prefix(k)).unwrap_or("").to_string();
    let tape: Vec<u64> = get("tape=").split(',').filter(|x| !x.is_empty()).filter_map(|x| u64::from_str_radix(x, 16).ok()).collect();
    let (id, class) = (get("property="), get("class="));
    let index = get("index=").parse().unwrap_or(0);
    let root = arg(args, "--root").unwrap_or("/verif".into());
    let _ = shm::KNOWN.set(known(&root).iter().filter(|k| k.0 == id).map(|k| k.1.clone()).collect());
    let m = shm::create();
    m.verbose = 1;
    let (e, m) = run_tape(m, &id, &tape, index, get("tier=") == "thorough", 120);
    println!("{}", String::from_utf8_lossy(&m.log[..m.log_len as usize]));
    println!("trace hash {:016x}", m.trace_hash);
    match e {
        End::Violation(c, msg) => {
            println!("{c}: {msg}");
            if c != class {
                println!("(recorded was {class})");
            }
            println!("VIOLATION property={id} replay={}", args[0]);
            1
        }
        End::Ok => {
            println!("no violation");
            0
        }
        End::Harness(m) => {
            eprintln!("simulator error: {m}");
            2
        }
    }
}

/// One run, verbosely.
pub fn one(args: &[String]) -> i32 {
    prepare();
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let id = args[0].clone();
    let i: u64 = args[1].parse().unwrap();
    let m = shm::create();
    m.verbose = 1;
    let t = Instant::now();
    let (e, m) = execute(m, &id, &Input::Seed(run_seed(seed, &id, i)), i, false, 120);
    println!("{}", String::from_utf8_lossy(&m.log[..m.log_len as usize]));
    println!("{e:?} hash {:016x} choices {} forks {} in {:?}", m.trace_hash, m.tape_len, m.stats[Stat::FORKS as usize], t.elapsed());
    0
}

/// Determinism: the same seeds in different processes, with different numbers of workers, give the
/// same executions.
pub fn selftest(args: &[String]) -> i32 {
    prepare();
    let n: u64 = args.first().and_then(|s| s.parse().ok()).unwrap_or(400);
    let only = args.get(1);
    // known findings do not end a sweep
    let _ = shm::KNOWN.set(known(args.get(2).map_or(".", |x| x)).into_iter().map(|k| k.1).collect());
    let mut bad = 0;
    for p in PROPS.iter().filter(|p| only.is_none_or(|x| x == p.id || x == "all")) {
        let mut sets: Vec<HashSet<u64>> = Vec::new();
        for workers in [8, 3, 8, 5] {
            let s = sweep(p.id, 77, 0, n, workers, Duration::from_secs(3000), false, true);
            if !s.harness.is_empty() || !s.found.is_empty() || !s.flaky.is_empty() {
                println!("{}: {:?} {:?} {}", p.id, s.harness, s.flaky, s.found.len());
            }
            sets.push(s.all_hashes);
        }
        let same = sets.iter().all(|s| *s == sets[0]);
        println!("{}: {} runs, 4 sweeps (8, 3, 8 and 5 processes): {}", p.id, n, if same { "identical" } else { "DIFFERENT" });
        if !same {
            bad = 1;
        }
    }
    bad
}
