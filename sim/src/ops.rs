//! Library calls as data: what is called on what, under which faults, and what came of it.
use graphql_parser::Style;
use shim::{Doc, Fl};
use simrt::ctx::{self, Outcome};
use simrt::sched::{self, Stall, Th};
use simrt::shm::{self, Stat};
use simrt::{bump, seam, Src};
use std::collections::HashMap;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Entry {
    Query,
    Schema,
    Consume,
    Minify,
    Location,
}
pub const DEBUG: u16 = 1;
pub const DISPLAY: u16 = 2;
pub const FORMAT: u16 = 4;
pub const CLONE: u16 = 8;
pub const NODE: u16 = 16;
pub const VALUES: u16 = 32;
pub const STATIC: u16 = 64;
pub const ALL: u16 = 127;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct Op {
    pub entry: Entry,
    pub fl: Fl,
    pub indent: u32,
    pub multiline: bool,
    pub stages: u16,
    pub node: u32,
}
pub fn style(indent: u32, multiline: bool) -> Style {
    let mut s = Style::default();
    s.indent(indent).multiline_arguments(multiline);
    s
}
pub fn draw_style(s: &mut Src) -> (u32, bool) {
    let indent = if s.chance(1, 8) { s.below(70) as u32 } else { *s.pick(&[2, 0, 1, 4, 7, 3, 40, 8]) };
    (indent, s.chance(1, 3))
}
pub fn draw_op(s: &mut Src, schema: bool) -> Op {
    let (indent, multiline) = draw_style(s);
    let entry = if s.chance(1, 60) {
        Entry::Location
    } else if schema {
        *s.pick(&[Entry::Schema, Entry::Schema, Entry::Schema, Entry::Minify, Entry::Query])
    } else {
        *s.pick(&[Entry::Query, Entry::Consume, Entry::Query, Entry::Minify, Entry::Query, Entry::Schema])
    };
    Op {
        entry,
        fl: *s.pick(&shim::FLAVOURS),
        indent,
        multiline,
        stages: if s.chance(1, 4) { ALL } else { DEBUG | (s.below(128) as u16 & s.below(128) as u16) },
        node: s.below(64) as u32,
    }
}

/// Processor time of this thread.
fn cpu_now() -> u64 {
    let mut t = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe { libc::syscall(libc::SYS_clock_gettime, libc::CLOCK_THREAD_CPUTIME_ID, &mut t) };
    t.tv_sec as u64 * 1_000_000_000 + t.tv_nsec as u64
}

/// What one call did, for bounds and fault placement.
#[derive(Clone, Debug, Default)]
pub struct Rec {
    pub what: String,
    pub steps: u64,
    pub allocs: u64,
    /// requests of at least `ctx::BIG[i]` bytes
    pub big: [u64; ctx::BIG.len()],
    pub cbs: u64,
    pub peak: i64,
    /// processor time in nanoseconds, the one measure that is not simulated (see `C11`)
    pub cpu: u64,
}
#[derive(Clone, Debug, Default)]
pub struct Digest {
    pub parts: Vec<(String, String)>,
    /// the injected fault that came out of the last call
    pub fault: Option<String>,
    pub recs: Vec<Rec>,
}
impl Digest {
    pub fn steps(&self) -> u64 {
        self.recs.iter().map(|r| r.steps).sum()
    }
    pub fn pack(&self) -> Vec<u8> {
        let mut o = Vec::new();
        let mut put = |s: &str| {
            o.extend_from_slice(&(s.len() as u64).to_le_bytes());
            o.extend_from_slice(s.as_bytes());
        };
        put(&self.parts.len().to_string());
        for (a, b) in &self.parts {
            put(a);
            put(b);
        }
        put(&self.recs.len().to_string());
        for r in &self.recs {
            put(&r.what);
            for n in [r.steps, r.allocs, r.cbs, r.peak as u64].iter().chain(&r.big) {
                put(&n.to_string());
            }
        }
        o
    }
    pub fn unpack(mut b: &[u8]) -> Option<Digest> {
        let mut get = || -> Option<String> {
            let n = u64::from_le_bytes(b.get(..8)?.try_into().ok()?) as usize;
            let s = String::from_utf8(b.get(8..8 + n)?.to_vec()).ok()?;
            b = &b[8 + n..];
            Some(s)
        };
        let mut d = Digest::default();
        let n: usize = get()?.parse().ok()?;
        for _ in 0..n {
            d.parts.push((get()?, get()?));
        }
        let n: usize = get()?.parse().ok()?;
        for _ in 0..n {
            let what = get()?;
            let mut num = || -> Option<u64> { get()?.parse().ok() };
            let mut r = Rec { what, steps: num()?, allocs: num()?, cbs: num()?, peak: num()? as i64, ..Rec::default() };
            for n in &mut r.big {
                *n = num()?;
            }
            d.recs.push(r);
        }
        Some(d)
    }
    /// Where two digests differ.
    pub fn diff(&self, o: &Digest) -> Option<String> {
        for (i, p) in self.parts.iter().enumerate() {
            match o.parts.get(i) {
                Some(q) if p == q => {}
                Some(q) if p.0 == q.0 => {
                    return Some(format!("{} gave {} instead of {}", p.0, show(&p.1), show_near(&q.1, &p.1)))
                }
                Some(q) => {
                    return Some(format!("{} gave {} where alone {} gave {}", p.0, show(&p.1), q.0, show(&q.1)))
                }
                None => return Some(format!("{} gave {} where alone there is nothing", p.0, show(&p.1))),
            }
        }
        if self.parts.len() < o.parts.len() {
            return Some(format!("no result for {}", o.parts[self.parts.len()].0));
        }
        None
    }
}
pub fn show(s: &str) -> String {
    if s.chars().count() > 300 {
        let t: String = s.chars().take(300).collect();
        format!("{t:?}... ({} bytes)", s.len())
    } else {
        format!("{s:?}")
    }
}
fn show_near(s: &str, other: &str) -> String {
    let at = s.bytes().zip(other.bytes()).position(|(a, b)| a != b).unwrap_or(s.len().min(other.len()));
    format!("{} (first difference at byte {at})", show(s))
}

/// Of the requests for at least `least` bytes, number `at` (and all later ones) are refused.
#[derive(Clone, Copy)]
pub struct Oom {
    pub at: u64,
    pub all: bool,
    pub least: usize,
}
impl Oom {
    pub fn draw(s: &mut Src, r: &Rec) -> Option<Oom> {
        if r.allocs == 0 {
            return None;
        }
        let all = s.chance(1, 3);
        // when memory is short the large requests are refused first
        let classes = r.big.iter().filter(|n| **n > 0).count();
        if classes > 0 && s.chance(2, 5) {
            let k = s.below(classes as u64) as usize;
            return Some(Oom { at: s.below(r.big[k]), all, least: ctx::BIG[k] });
        }
        Some(Oom { at: s.below(r.allocs), all, least: 0 })
    }
}
impl std::fmt::Display for Oom {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "allocation {}", self.at)?;
        if self.least > 0 {
            write!(f, " of those of at least {} bytes", self.least)?;
        }
        f.write_str(if self.all { " and all later ones" } else { "" })
    }
}
#[derive(Clone, Copy)]
pub enum Fault {
    Panic { at: u64, id: u64 },
    Oom(Oom),
    Nest { at: u64, f: fn() },
}

/// Performs the calls of an operation one by one.
pub struct Env<'t> {
    pub th: Option<&'t Th>,
    /// what the same calls did alone
    pub base: Option<&'t Digest>,
    /// (index of the call, fault)
    pub fault: Option<(usize, Fault)>,
    pub stall: Option<(usize, Stall)>,
    /// added to the step cap of every call
    pub slack: u64,
    pub recs: Vec<Rec>,
    /// step cap and memory quota of every call, when there is no baseline
    pub cap: u64,
    pub quota: i64,
    pub quota_hit: bool,
    pub soft: bool,
    /// inside another call's callback
    pub inner: bool,
    pub fired: bool,
}
impl<'t> Env<'t> {
    pub fn alone() -> Env<'static> {
        Env { th: None, base: None, fault: None, stall: None, slack: 0, recs: Vec::new(), cap: 2_000_000_000, quota: i64::MAX, quota_hit: false, soft: false, inner: false, fired: false }
    }
    pub fn of(base: &'t Digest) -> Env<'t> {
        Env { base: Some(base), ..Env::alone() }
    }
    pub fn on(base: &'t Digest, th: &'t Th) -> Env<'t> {
        Env { base: Some(base), th: Some(th), ..Env::alone() }
    }
    pub fn call<T>(&mut self, what: &str, f: impl FnOnce() -> T) -> Outcome<T> {
        let i = self.recs.len();
        if self.inner {
            ctx::reset_op();
            if let Some((n, Fault::Nest { at, f })) = self.fault {
                if n == i {
                    ctx::with(|c| {
                        c.reenter_at.set(at);
                        c.reenter.set(Some(f));
                    });
                }
            }
            let r = simrt::enter(f);
            self.recs.push(Rec { what: what.into(), ..Rec::default() });
            return r;
        }
        let cap = match self.base.and_then(|b| b.recs.get(i)) {
            Some(r) => r.steps * 4 + 20_000 + self.slack,
            None => self.cap + self.slack,
        };
        ctx::reset_op();
        ctx::with(|c| c.quota.set(self.quota));
        if let Some((n, fault)) = self.fault {
            if n == i {
                ctx::with(|c| match fault {
                    Fault::Panic { at, id } => {
                        c.panic_at.set(at);
                        c.panic_id.set(id);
                    }
                    Fault::Oom(o) => {
                        c.fail_at.set(o.at);
                        c.fail_all.set(o.all);
                        c.fail_min.set(o.least);
                    }
                    Fault::Nest { at, f } => {
                        c.reenter_at.set(at);
                        c.reenter.set(Some(f));
                    }
                })
            }
        }
        let stall = match self.stall {
            Some((n, s)) if n == i => Some(s),
            _ => None,
        };
        match self.th {
            Some(t) => t.begin_call(cap, stall),
            None => sched::solo(cap, self.soft),
        }
        let before = cpu_now();
        let r = simrt::enter(f);
        let cpu = cpu_now() - before;
        let steps = match self.th {
            Some(t) => t.end_call(),
            None => sched::solo_steps(),
        };
        if self.th.is_none() {
            sched::solo_end();
        }
        let rec = ctx::with(|c| {
            self.quota_hit |= c.quota_hit.get();
            self.fired |= c.panic_fired.get() || c.fail_fired.get();
            Rec { what: what.into(), steps, allocs: c.allocs.get(), big: c.big.get(), cbs: c.cbs.get(), peak: c.peak.get(), cpu }
        });
        ctx::reset_op();
        shm::trace(steps ^ (rec.allocs << 40));
        self.recs.push(rec);
        if let Some(t) = self.th {
            t.yield_between();
        }
        r
    }
}

enum Step {
    Go,
    Stop,
}
fn put(d: &mut Digest, what: &str, r: Outcome<String>) -> Step {
    match r {
        Outcome::Done(s) => {
            d.parts.push((what.into(), s));
            Step::Go
        }
        Outcome::Panic(s) => {
            d.parts.push((format!("{what} panicked"), s));
            Step::Stop
        }
        Outcome::Caller(id) => {
            d.fault = Some(format!("caller panic {id} in {what}"));
            Step::Stop
        }
        Outcome::Oom => {
            d.fault = Some(format!("allocation failure in {what}"));
            Step::Stop
        }
    }
}
macro_rules! part {
    ($d:expr, $w:expr, $r:expr) => {
        if let Step::Stop = put($d, $w, $r) {
            return;
        }
    };
}

/// The reading stages on a document that stays whole.
pub fn read(doc: &Doc, op: &Op, env: &mut Env, d: &mut Digest) {
    if op.stages & DEBUG != 0 {
        part!(d, "debug", env.call("debug", || doc.debug()));
    }
    if op.stages & DISPLAY != 0 {
        part!(d, "display", env.call("display", || doc.display()));
    }
    if op.stages & FORMAT != 0 {
        let st = style(op.indent, op.multiline);
        part!(d, "format", env.call("format", || doc.format(&st)));
    }
    if op.stages & NODE != 0 {
        let nodes = doc.nodes();
        if !nodes.is_empty() {
            let (k, n) = nodes[op.node as usize % nodes.len()];
            part!(d, k, env.call(k, || shim::node_string(n, 0)));
        }
    }
    if op.stages & VALUES != 0 {
        match env.call("into_static(values)", || doc.static_values()) {
            Outcome::Done(vs) => {
                if let Some(v) = vs.get(op.node as usize % vs.len().max(1)) {
                    part!(d, "value", env.call("value", || shim::value_debug(v)));
                }
                d.parts.push(("values".into(), vs.len().to_string()));
            }
            o => part!(d, "into_static(values)", o.map(|_| String::new())),
        }
    }
    if op.stages & CLONE != 0 {
        match env.call("clone", || doc.duplicate()) {
            Outcome::Done(c) => {
                match env.call("compare", || doc.same(&c)) {
                    Outcome::Done(b) => d.parts.push(("clone equals".into(), b.to_string())),
                    o => part!(d, "compare", o.map(|_| String::new())),
                }
                let r = env.call("debug of clone", || c.debug());
                drop(c);
                part!(d, "debug of clone", r);
            }
            o => part!(d, "clone", o.map(|_| String::new())),
        }
    }
}
fn finish(doc: Doc, op: &Op, env: &mut Env, d: &mut Digest) {
    read(&doc, op, env, d);
    if d.fault.is_some() || d.parts.last().map(|p| p.0.ends_with("panicked")).unwrap_or(false) {
        return;
    }
    if op.stages & STATIC != 0 && matches!(doc, Doc::QOwn(_) | Doc::SOwn(_)) {
        match env.call("into_static", || doc.into_static()) {
            Outcome::Done(Some(x)) => {
                part!(d, "debug of static", env.call("debug of static", || x.debug()));
                part!(d, "drop", env.call("drop", || x.discard()).map(|_| String::new()));
            }
            Outcome::Done(None) => {}
            o => part!(d, "into_static", o.map(|_| String::new())),
        }
        return;
    }
    part!(d, "drop", env.call("drop", || doc.discard()).map(|_| String::new()));
}

pub fn perform(op: &Op, text: &str, env: &mut Env) -> Digest {
    let mut d = Digest::default();
    go(op, text, env, &mut d);
    d.recs = std::mem::take(&mut env.recs);
    d
}
fn go(op: &Op, text: &str, env: &mut Env, d: &mut Digest) {
    let (what, r) = match op.entry {
        Entry::Query => ("parse_query", env.call("parse_query", || shim::parse_query(op.fl, text))),
        Entry::Schema => ("parse_schema", env.call("parse_schema", || shim::parse_schema(op.fl, text))),
        Entry::Consume => match env.call("consume_definition", || shim::consume(op.fl, text)) {
            Outcome::Done(Ok((doc, rest))) => {
                let inside = rest.is_empty() || text.as_bytes().as_ptr_range().contains(&rest.as_ptr());
                d.parts.push(("remainder".into(), format!("{inside} {rest}")));
                ("consume_definition", Outcome::Done(Ok(doc)))
            }
            o => ("consume_definition", o.map(|r| r.map(|x| x.0))),
        },
        Entry::Minify => {
            let s = text.to_string();
            match env.call("minify_query", || shim::minify(s)) {
                Outcome::Done(Ok(s)) => d.parts.push(("minify_query".into(), s)),
                Outcome::Done(Err(e)) => {
                    part!(d, "minify error", env.call("minify error", || format!("{e} {e:?}")));
                }
                o => part!(d, "minify_query", o.map(|_| String::new())),
            }
            return;
        }
        Entry::Location => {
            const NAMES: [&str; 22] = [
                "QUERY", "MUTATION", "SUBSCRIPTION", "FIELD", "FRAGMENT_DEFINITION", "FRAGMENT_SPREAD", "INLINE_FRAGMENT", "SCHEMA", "SCALAR", "OBJECT", "FIELD_DEFINITION",
                "ARGUMENT_DEFINITION", "INTERFACE", "UNION", "ENUM", "ENUM_VALUE", "INPUT_OBJECT", "INPUT_FIELD_DEFINITION", "VARIABLE_DEFINITION", "field", "QUER", "",
            ];
            let t = if op.node % 4 == 0 { text } else { NAMES[op.node as usize % NAMES.len()] };
            part!(d, "location", env.call("location", || shim::location(t)));
            return;
        }
    };
    match r {
        Outcome::Done(Ok(doc)) => {
            d.parts.push((what.into(), "ok".into()));
            finish(doc, op, env, d)
        }
        Outcome::Done(Err(e)) => {
            part!(d, "error", env.call("error", || e.display()));
            part!(d, "error debug", env.call("error debug", || e.debug()));
        }
        o => part!(d, what, o.map(|_| String::new())),
    }
}

// ------------------------------------------------------------------------------- solo baselines

pub static WAITING: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);

/// Runs `f` in a fresh process (forked before any library call of this run) and returns its bytes.
pub fn elsewhere(f: impl FnOnce() -> Vec<u8>) -> Option<Vec<u8>> {
    let m = shm::get().unwrap();
    m.res_len = u64::MAX;
    bump(Stat::FORKS, 1);
    unsafe {
        let pid = libc::fork();
        if pid < 0 {
            shm::harness_error("fork failed");
        }
        if pid == 0 {
            libc::signal(libc::SIGALRM, libc::SIG_DFL);
            libc::alarm(120);
            shm::BASELINE.store(true, std::sync::atomic::Ordering::SeqCst);
            seam::set_random(0x5EED);
            seam::fill(b'~');
            seam::set_clock(1_700_000_000_000_000_000);
            let v = match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
                Ok(v) => v,
                Err(_) => libc::_exit(97),
            };
            ctx::set_active(false);
            let n = v.len().min(shm::RES_CAP);
            m.res[..n].copy_from_slice(&v[..n]);
            m.res_len = v.len() as u64;
            libc::_exit(0);
        }
        let mut st = 0;
        WAITING.store(true, std::sync::atomic::Ordering::Relaxed);
        while libc::waitpid(pid, &mut st, 0) < 0 {}
        WAITING.store(false, std::sync::atomic::Ordering::Relaxed);
        if st != 0 || m.res_len as usize > shm::RES_CAP {
            return None;
        }
        Some(m.res[..m.res_len as usize].to_vec())
    }
}

/// Results of calls made alone in a fresh process.
#[derive(Default)]
pub struct Bases {
    memo: HashMap<(Op, String), &'static Digest>,
}
/// The call cannot even be made alone: other properties are about that.
pub fn skip() -> ! {
    bump(Stat::P_BASEFAIL, 1);
    shm::done()
}
impl Bases {
    pub fn get(&mut self, op: &Op, text: &str) -> &'static Digest {
        let key = (*op, text.to_string());
        if let Some(d) = self.memo.get(&key) {
            return d;
        }
        let b = elsewhere(|| perform(op, text, &mut Env { soft: true, ..Env::alone() }).pack());
        let d = match b.as_deref().and_then(Digest::unpack) {
            Some(d) => &*Box::leak(Box::new(d)),
            None => skip(),
        };
        self.memo.insert(key, d);
        d
    }
}
/// A call alone in a fresh process, described by a closure.
pub fn base_of(f: impl FnOnce(&mut Env) -> Digest) -> &'static Digest {
    let b = elsewhere(|| f(&mut Env { soft: true, ..Env::alone() }).pack());
    match b.as_deref().and_then(Digest::unpack) {
        Some(d) => Box::leak(Box::new(d)),
        None => skip(),
    }
}
pub fn kind(op: &Op) -> &'static str {
    match op.entry {
        Entry::Query => "parse_query",
        Entry::Schema => "parse_schema",
        Entry::Consume => "consume_definition",
        Entry::Minify => "minify_query",
        Entry::Location => "location",
    }
}
