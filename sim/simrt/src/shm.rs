//! One region shared between the worker (parent) and the forked run (child).
//! It survives a crash of the child, so that the tape of a crashed run is not lost.
use std::sync::atomic::{AtomicPtr, AtomicU64, Ordering};

pub const TAPE_CAP: usize = 1 << 21;
pub const SPAN_CAP: usize = 1 << 17;
pub const MSG_CAP: usize = 1 << 14;
pub const LOG_CAP: usize = 1 << 20;
pub const RES_CAP: usize = 1 << 23;
pub const COV_CAP: usize = 1 << 18;

#[repr(C)]
pub struct Shm {
    pub tape_len: u64,
    pub span_len: u64,
    pub status: u64, // 0 nothing, 1 violation, 2 harness error
    pub class_len: u64,
    pub msg_len: u64,
    pub log_len: u64,
    pub res_len: u64,
    pub verbose: u64,
    pub trace_hash: u64,
    pub nontrivial: u64,
    /// an injected allocation failure is unwinding
    pub oom: u64,
    pub stats: [u64; N_STATS],
    pub class: [u8; 128],
    pub msg: [u8; MSG_CAP],
    pub log: [u8; LOG_CAP],
    pub res: [u8; RES_CAP],
    pub cov: [u8; COV_CAP],
    pub tape: [u64; TAPE_CAP],
    pub spans: [(u32, u32); SPAN_CAP],
}

macro_rules! stats {
    ($($id:ident $name:expr,)*) => {
        #[allow(non_camel_case_types, clippy::upper_case_acronyms)]
        #[derive(Clone, Copy)]
        pub enum Stat { $($id,)* _LAST }
        pub const N_STATS: usize = Stat::_LAST as usize;
        pub const STAT_NAMES: &[&str] = &[$($name,)*];
    };
}
stats! {
    RUNS "runs",
    CALLS "library_calls",
    STEPS "simulated_steps",
    SIM_MS "simulated_ms",
    SWITCHES "context_switches",
    PREEMPT "preemptions_inside_a_call",
    MAXTHREADS "max_threads_inside_library",
    F_STALL "fault.stalled_call",
    F_REENTER "fault.nested_call_from_callback",
    F_PANIC "fault.caller_panic",
    F_OOM1 "fault.single_allocation_failure",
    F_OOMALL "fault.persistent_allocation_failure",
    F_SINK_ERR "fault.writer_error",
    F_SINK_PANIC "fault.writer_panic",
    F_SINK_SHORT "fault.short_write",
    F_SINK_EINTR "fault.interrupted_write",
    F_SINK_FULL "fault.writer_full",
    F_SCRIBBLE "fault.source_overwritten",
    F_FREE "fault.source_freed",
    F_CHUNK "fault.fragmented_delivery",
    F_DUP "fault.duplicated_delivery",
    F_DROP "fault.connection_drop",
    F_REORDER "fault.reordered_delivery",
    F_STALLNET "fault.network_stall",
    F_RESTART "fault.receiver_restart",
    F_CRASH "fault.disk_crash",
    F_TORN "fault.torn_write",
    F_LOSTSYNC "fault.lost_unsynced_data",
    F_ZEROTAIL "fault.zeroed_tail",
    F_ENOSPC "fault.disk_full",
    F_FLIP "fault.flipped_bits",
    F_LOSE "fault.lost_region",
    F_DUPREG "fault.duplicated_region",
    F_SWAP "fault.swapped_regions",
    F_ZERO "fault.zeroed_region",
    F_STALE "fault.stale_region",
    F_SPLICE "fault.spliced_documents",
    F_TOKEN "fault.misdirected_fragment",
    F_STACK "fault.small_stack_runs",
    F_MEMQ "fault.memory_quota_runs",
    F_STEPQ "fault.step_quota_runs",
    F_CLOCK "fault.clock_jump",
    F_REUSE "fault.source_memory_reused_in_place",
    P_OKPARSE "probe.damaged_or_torn_document_still_parsed",
    P_PARTIAL "probe.incomplete_definition_rejected",
    P_RECOVER "probe.recoveries_with_acknowledged_data",
    P_FULLREC "probe.unacknowledged_definition_recovered_whole",
    P_BLOCKED "probe.thread_blocked_in_kernel",
    P_OOM_ABORT "probe.aborted_on_injected_allocation_failure",
    P_OOM_SURVIVED "probe.completed_despite_allocation_failure",
    P_RECLIMIT "probe.recursion_limit_reported",
    P_SHARED "probe.shared_document_read_concurrently",
    P_MULTILINE "probe.block_string_rendered",
    P_BASEFAIL "probe.skipped_solo_call_crashed",
    P_COLLIDE "probe.same_length_variant_after_original",
    FORKS "processes_forked",
    P_MAXSTACK "max_stack_bytes_used",
    P_MAXSPB "max_steps_per_input_byte",
    P_TIMED "probe.growth_of_processor_time_measured",
    P_MAXMPB "max_peak_memory_per_input_byte",
    P_NESTOK "probe.deep_but_legal_nesting_accepted",
    P_REJECT "probe.rejected_with_error",
    P_LONGHIST "probe.histories_over_256_calls",
    P_CROWD "probe.threads_that_came_and_went",
    KNOWN "known_findings_met",
}

/// Set in processes that only compute a baseline: they give no verdict.
pub static BASELINE: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);

static PTR: AtomicPtr<Shm> = AtomicPtr::new(std::ptr::null_mut());

/// Maps a fresh region and makes it the current one.
pub fn create() -> &'static mut Shm {
    unsafe {
        let p = libc::mmap(
            std::ptr::null_mut(),
            std::mem::size_of::<Shm>(),
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE,
            -1,
            0,
        );
        assert!(p != libc::MAP_FAILED, "mmap failed");
        PTR.store(p as *mut Shm, Ordering::SeqCst);
        &mut *(p as *mut Shm)
    }
}

pub fn select(p: *mut Shm) {
    PTR.store(p, Ordering::SeqCst);
}

#[inline]
pub fn get() -> Option<&'static mut Shm> {
    let p = PTR.load(Ordering::Relaxed);
    if p.is_null() {
        None
    } else {
        Some(unsafe { &mut *p })
    }
}

#[inline]
pub fn bump(s: Stat, n: u64) {
    if let Some(m) = get() {
        // several threads of a run may bump; only one of them runs at a time
        let a = unsafe { AtomicU64::from_ptr(&mut m.stats[s as usize]) };
        a.fetch_add(n, Ordering::Relaxed);
    }
}
pub fn oom(on: u64) {
    if let Some(m) = get() {
        m.oom = on;
    }
}
pub fn maximum(s: Stat, n: u64) {
    if let Some(m) = get() {
        let a = unsafe { AtomicU64::from_ptr(&mut m.stats[s as usize]) };
        a.fetch_max(n, Ordering::Relaxed);
    }
}
pub fn stat(s: Stat) -> u64 {
    get().map(|m| m.stats[s as usize]).unwrap_or(0)
}

/// Mixes a value into the hash of the executed schedule / fault trace.
#[inline]
pub fn trace(v: u64) {
    if let Some(m) = get() {
        let mut h = m.trace_hash ^ v.wrapping_mul(0x9E3779B97F4A7C15);
        h ^= h >> 29;
        h = h.wrapping_mul(0xBF58476D1CE4E5B9);
        m.trace_hash = h ^ (h >> 32);
    }
}

/// The run has met what its property is about (a fault fired, calls overlapped, ...).
pub fn nontrivial() {
    if let Some(m) = get() {
        m.nontrivial = 1;
    }
}

fn put(buf: &mut [u8], len: &mut u64, s: &str) {
    let n = s.len().min(buf.len());
    buf[..n].copy_from_slice(&s.as_bytes()[..n]);
    *len = n as u64;
}

/// Records the violation (the first one wins) and leaves the run at once.
pub fn violation(class: &str, msg: &str) -> ! {
    crate::ctx::set_active(false);
    if BASELINE.load(Ordering::Relaxed) {
        unsafe { libc::_exit(98) }
    }
    if let Some(m) = get() {
        if m.status == 0 {
            put(&mut m.class, &mut m.class_len, class);
            put(&mut m.msg, &mut m.msg_len, msg);
            m.status = 1;
        }
    }
    unsafe { libc::_exit(0) }
}
/// Classes of violations that are recorded in known-findings.txt for the property being checked.
pub static KNOWN: std::sync::OnceLock<Vec<String>> = std::sync::OnceLock::new();

/// A violation that can be told apart so precisely that the run can go on if it is a known one.
pub fn finding(class: &str, msg: &str) {
    if KNOWN.get().map_or(false, |k| k.iter().any(|c| c == class)) {
        bump(Stat::KNOWN, 1);
        return;
    }
    violation(class, msg)
}
/// The run is over and nothing was wrong.
pub fn done() -> ! {
    crate::ctx::set_active(false);
    if let Some(m) = get() {
        if m.status == 0 {
            m.status = 3;
        }
    }
    unsafe { libc::_exit(0) }
}
/// The simulator itself is wrong: never a verdict about the library.
pub fn harness_error(msg: &str) -> ! {
    crate::ctx::set_active(false);
    if let Some(m) = get() {
        if m.status == 0 {
            put(&mut m.class, &mut m.class_len, "harness");
            put(&mut m.msg, &mut m.msg_len, msg);
            m.status = 2;
        }
    }
    unsafe { libc::_exit(70) }
}
pub fn verbose() -> bool {
    get().map(|m| m.verbose != 0).unwrap_or(false)
}
/// Appends a line to the event log (only while replaying; never draws choices).
pub fn note(f: impl FnOnce() -> String) {
    if !verbose() {
        return;
    }
    let was = crate::ctx::set_active(false);
    let s = f();
    let m = get().unwrap();
    let at = m.log_len as usize;
    let n = s.len().min(LOG_CAP.saturating_sub(at + 1));
    m.log[at..at + n].copy_from_slice(&s.as_bytes()[..n]);
    if at + n < LOG_CAP {
        m.log[at + n] = b'\n';
        m.log_len = (at + n + 1) as u64;
    }
    crate::ctx::set_active(was);
}
