//! C04 (failing writers), C05 (panics in caller text code), C06 (memory exhaustion),
//! C12 (independence from the source).
use crate::conc::{describe, draw_fault, parse_any};
use crate::model;
use crate::ops::{self, Bases, Digest, Entry, Env, Fault, Oom, Op};
use crate::project;
use crate::texts::{self, Text};
use shim::{Doc, Fl};
use simrt::ctx::{self, Outcome};
use simrt::sched::{self, Body, Slice, Th};
use simrt::shm::{self, Stat};
use simrt::{bump, note, text, violation, Src};
use std::fmt::{self, Display};
use std::io;

// ----------------------------------------------------------------------------------------- C04

enum Shown<'d> {
    Doc(Doc<'d>),
    Fail(shim::Fail),
    Box(Box<dyn std::error::Error>),
    Loc(Box<dyn Display>),
    None,
}
#[derive(Clone)]
enum Subject {
    Parse { fl: Fl, schema: bool, consume: bool, text: String },
    Build(model::Model),
    Minify(String),
    Location(String),
}
fn make(s: &'static Subject) -> Shown<'static> {
    match s {
        Subject::Parse { fl, schema, consume, text } => {
            let r = if *schema {
                shim::parse_schema(*fl, text)
            } else if *consume {
                shim::consume(*fl, text).map(|x| x.0)
            } else {
                shim::parse_query(*fl, text)
            };
            match r {
                Ok(d) => Shown::Doc(d),
                Err(e) => Shown::Fail(e),
            }
        }
        Subject::Build(m) => Shown::Doc(project::build(m)),
        Subject::Minify(t) => match shim::minify(t.clone()) {
            Ok(_) => Shown::None,
            Err(e) => Shown::Box(e),
        },
        Subject::Location(t) => match shim::location_error(t) {
            Some(e) => Shown::Loc(Box::new(e)),
            None => Shown::None,
        },
    }
}
fn nodes<'a>(s: &'a Shown<'static>) -> Vec<(&'static str, &'a dyn Display)> {
    match s {
        Shown::Doc(d) => d.nodes(),
        Shown::Fail(e) => vec![("ParseError", e.node())],
        Shown::Box(e) => vec![("MinifyError", &**e as &dyn Display)],
        Shown::Loc(e) => vec![("InvalidDirectiveLocation", &**e)],
        Shown::None => vec![],
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Stop {
    Never,
    /// fails at the chunk that reaches this byte, taking nothing of it
    Err(usize),
    /// takes what fits and fails
    Full(usize),
    Panic(usize),
    /// fails at this call
    Call(usize),
    /// io: answers Ok(0) from this byte on
    Zero(usize),
}
struct Sink {
    got: String,
    stop: Stop,
    failed: bool,
    after: bool,
    calls: usize,
    flushes: usize,
    // io only
    bytes: Vec<u8>,
    short: u64,
    eintr: u64,
    x: u64,
}
impl Sink {
    fn new(stop: Stop, seed: u64, short: u64, eintr: u64) -> Sink {
        Sink { got: String::new(), stop, failed: false, after: false, calls: 0, flushes: 0, bytes: vec![], short, eintr, x: seed }
    }
    fn rnd(&mut self, n: u64) -> u64 {
        self.x = simrt::src::mix(self.x, 3);
        self.x % n
    }
}
impl fmt::Write for Sink {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        let was = ctx::set_active(false);
        let r = self.text(s);
        ctx::set_active(was);
        match r {
            0 => Ok(()),
            1 => Err(fmt::Error),
            _ => ctx::caller_panic(11),
        }
    }
}
impl Sink {
    fn text(&mut self, s: &str) -> u8 {
        if self.failed {
            self.after = true;
            return 1;
        }
        let call = self.calls;
        self.calls += 1;
        let end = self.got.len() + s.len();
        match self.stop {
            Stop::Err(n) if end > n => {
                bump(Stat::F_SINK_ERR, 1);
                self.failed = true;
                1
            }
            Stop::Call(n) if call >= n => {
                bump(Stat::F_SINK_ERR, 1);
                self.failed = true;
                1
            }
            Stop::Full(n) | Stop::Zero(n) if end > n => {
                bump(Stat::F_SINK_FULL, 1);
                let mut k = n.saturating_sub(self.got.len()).min(s.len());
                while !s.is_char_boundary(k) {
                    k -= 1;
                }
                self.got.push_str(&s[..k]);
                self.failed = true;
                1
            }
            Stop::Panic(n) if end > n => {
                bump(Stat::F_SINK_PANIC, 1);
                self.failed = true;
                2
            }
            _ => {
                self.got.push_str(s);
                0
            }
        }
    }
    fn io(&mut self, b: &[u8]) -> Result<usize, io::ErrorKind> {
        if self.failed {
            self.after = true;
            return Err(io::ErrorKind::Other);
        }
        if b.is_empty() {
            return Ok(0);
        }
        if self.eintr > 0 && self.rnd(self.eintr) == 0 {
            bump(Stat::F_SINK_EINTR, 1);
            return Err(io::ErrorKind::Interrupted);
        }
        let mut n = b.len();
        if self.short > 0 && self.rnd(self.short) == 0 {
            n = 1 + self.rnd(n as u64) as usize;
            if n < b.len() {
                bump(Stat::F_SINK_SHORT, 1);
            }
        }
        let have = self.bytes.len();
        match self.stop {
            Stop::Err(l) | Stop::Full(l) | Stop::Zero(l) | Stop::Panic(l) if have + n > l => {
                n = l.saturating_sub(have);
                if n == 0 {
                    self.failed = true;
                    return match self.stop {
                        Stop::Zero(_) => {
                            bump(Stat::F_SINK_FULL, 1);
                            Ok(0)
                        }
                        Stop::Panic(_) => {
                            bump(Stat::F_SINK_PANIC, 1);
                            Err(io::ErrorKind::Unsupported)
                        }
                        _ => {
                            bump(Stat::F_SINK_FULL, 1);
                            Err(io::ErrorKind::StorageFull)
                        }
                    };
                }
            }
            _ => {}
        }
        self.bytes.extend_from_slice(&b[..n]);
        Ok(n)
    }
}
struct IoSink(Sink);
impl io::Write for IoSink {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        let was = ctx::set_active(false);
        let r = self.0.io(b);
        ctx::set_active(was);
        match r {
            Err(io::ErrorKind::Unsupported) => ctx::caller_panic(12),
            Err(k) => Err(io::Error::from(k)),
            Ok(n) => Ok(n),
        }
    }
    fn flush(&mut self) -> io::Result<()> {
        self.0.flushes += 1;
        Ok(())
    }
}

pub fn c04(src: &'static mut Src) {
    let subject: &'static Subject = Box::leak(Box::new(match src.weighted(&[5, 3, 1, 1]) {
        0 => {
            let t = texts::draw(src);
            Subject::Parse { fl: *src.pick(&shim::FLAVOURS), schema: t.schema, consume: src.chance(1, 5), text: t.t }
        }
        1 => Subject::Build(texts::any_model(src)),
        2 => {
            let t = texts::draw(src);
            Subject::Minify(texts::broken(src, &t.t))
        }
        _ => Subject::Location(src.pick(&["QUERY", "NOPE", "field", "", "Ünïcode", "{}"]).to_string()),
    }));
    let look = if src.chance(1, 5) { src.below(shim::LOOKS) } else { 0 };
    // what an infallible writer receives, node by node, in a fresh process
    let base = ops::base_of(|env| {
        let mut d = Digest::default();
        let x = make(subject);
        for (k, n) in nodes(&x) {
            match env.call(k, || shim::node_string(n, look)) {
                Outcome::Done(s) => d.parts.push((k.into(), s)),
                _ => break,
            }
        }
        d.recs = std::mem::take(&mut env.recs);
        d
    });
    let value = make(subject);
    let ns = nodes(&value);
    if ns.len() != base.parts.len() || ns.is_empty() {
        return; // nothing to render (or the rendering itself panics: other properties)
    }
    let whole = match &value {
        Shown::Doc(d) => Some(d.debug()),
        _ => None,
    };
    let trials = src.range(1, 8);
    for _ in 0..trials {
        let at = src.pos();
        let k = if src.chance(1, 3) { 0 } else { src.below(ns.len() as u64) as usize };
        let (kind, node) = ns[k];
        let expect = &base.parts[k].1;
        let mut attempts = src.range(1, 3);
        let io = src.chance(1, 2);
        note(|| format!("{kind} whose text is {}, through {}", ops::show(expect), if io { "io::Write" } else { "fmt::Write" }));
        // several failing attempts, then one that works
        loop {
            let last = attempts == 0;
            let stop = if last {
                Stop::Never
            } else {
                let n = match src.below(3) {
                    0 => src.below(expect.len() as u64 + 1) as usize,
                    1 => expect.len().saturating_sub(src.below(4) as usize),
                    _ => src.scale(7) as usize,
                };
                *src.pick(&[Stop::Err(n), Stop::Full(n), Stop::Call(n), Stop::Panic(n), Stop::Zero(n), Stop::Never])
            };
            let (seed, short, eintr) = (src.bits(), src.below(3), if src.chance(1, 2) { src.range(2, 5) } else { 0 });
            let mut env = Env::alone();
            note(|| format!("  writer: {stop:?}, short writes 1/{short}, interrupted 1/{eintr}"));
            let (out, sink, kind_ok) = if io {
                let mut w = IoSink(Sink::new(stop, seed, short, eintr));
                let r = env.call(kind, || shim::io_write_node(node, &mut w, look));
                let mut ok = true;
                if let Outcome::Done(Err(e)) = &r {
                    ok = match stop {
                        Stop::Zero(_) => e.kind() == io::ErrorKind::WriteZero,
                        _ => e.kind() == io::ErrorKind::StorageFull,
                    };
                }
                (r.map(|x| x.is_ok()), w.0, ok)
            } else {
                let mut w = Sink::new(stop, seed, 0, 0);
                let r = env.call(kind, || shim::write_node(node, &mut w, look));
                let b = w.got.clone().into_bytes();
                w.bytes = b;
                (r.map(|x| x.is_ok()), w, true)
            };
            if sink.failed {
                shm::nontrivial();
            }
            let say = |m: &str| -> ! {
                violation(
                    "sink-contract",
                    &format!(
                        "{kind} rendered (look {look}) through {} with {stop:?}: {m}; writer received {}, an infallible writer receives {}",
                        if io { "io::Write" } else { "fmt::Write" },
                        ops::show(&String::from_utf8_lossy(&sink.bytes)),
                        ops::show(expect)
                    ),
                )
            };
            match (&out, sink.failed) {
                (Outcome::Panic(m), _) => say(&format!("the rendering panicked: {m}")),
                (Outcome::Done(true), true) => say("success was reported although the writer failed"),
                (Outcome::Done(false), false) => say("failure was reported although the writer never failed"),
                (Outcome::Caller(_), true) if !matches!(stop, Stop::Panic(_)) => say("panicked although the writer only failed"),
                (Outcome::Done(false), true) if matches!(stop, Stop::Panic(_)) => say("the writer's panic was turned into an error"),
                (Outcome::Oom, _) => say("allocation failure"),
                _ => {}
            }
            if !kind_ok {
                say("the error reported is not the writer's");
            }
            if sink.after {
                say("more was sent after the failure");
            }
            if !expect.as_bytes().starts_with(&sink.bytes) {
                say("not a prefix");
            }
            if !sink.failed && sink.bytes.len() != expect.len() {
                say("the text is not complete");
            }
            if last {
                break;
            }
            attempts -= 1;
        }
        src.span(at);
    }
    if let (Shown::Doc(d), Some(w)) = (&value, &whole) {
        let now = d.debug();
        if &now != w {
            violation("value-changed", &format!("the document rendered is now {}", ops::show(&now)));
        }
    }
}

// ----------------------------------------------------------------------------------------- C05

fn ledger() -> u32 {
    text::alive(0, text::created())
}

pub fn c05(src: &'static mut Src) {
    let pool: Vec<Text> = texts::pool(src, 4);
    // plan: documents that exist before, and the calls to interrupt
    let leak = |t: &str| -> &'static str { Box::leak(t.to_string().into_boxed_str()) };
    let texts: Vec<(&'static str, bool)> = pool.iter().map(|t| (leak(&t.t), t.schema)).collect();
    let keep: Vec<usize> = (0..texts.len()).filter(|_| src.chance(1, 2)).collect();
    struct Cut {
        text: usize,
        on_kept: bool,
        op: Op,
        base: &'static Digest,
        fault: Option<(usize, Fault)>,
    }
    let mut cuts = Vec::new();
    let n = src.range(1, 8);
    for _ in 0..n {
        let at = src.pos();
        let text = src.below(texts.len() as u64) as usize;
        let on_kept = keep.contains(&text) && src.chance(1, 2);
        let mut op = ops::draw_op(src, texts[text].1);
        op.fl = Fl::Sim;
        op.stages &= !ops::STATIC;
        if on_kept {
            op.stages |= *src.pick(&[ops::CLONE, ops::CLONE, ops::DEBUG, ops::FORMAT]);
        } else if op.entry == Entry::Minify {
            op.entry = if texts[text].1 { Entry::Schema } else { Entry::Query };
        }
        let (t, sc) = texts[text];
        let base = ops::base_of(|env| {
            let mut d = Digest::default();
            if on_kept {
                if let Some(doc) = parse_any(Fl::Sim, sc, t) {
                    ops::read(&doc, &op, env, &mut d);
                }
                d.recs = std::mem::take(&mut env.recs);
                d
            } else {
                ops::perform(&op, t, env)
            }
        });
        let cb: Vec<usize> = (0..base.recs.len()).filter(|i| base.recs[*i].cbs > 0).collect();
        let fault = if !cb.is_empty() && src.chance(5, 6) {
            // the parse itself is where most of the work in progress is
            let i = if src.chance(1, 2) { cb[0] } else { *src.pick(&cb) };
            Some((i, Fault::Panic { at: src.below(base.recs[i].cbs), id: src.range(1, 1 << 30) }))
        } else {
            None
        };
        cuts.push(Cut { text, on_kept, op, base, fault });
        src.span(at);
    }
    let kept_base: Vec<Option<String>> = keep
        .iter()
        .map(|i| {
            let (t, sc) = texts[*i];
            let d = ops::base_of(|env| {
                let mut d = Digest::default();
                if let Some(doc) = parse_any(Fl::Sim, sc, t) {
                    if let Outcome::Done(s) = env.call("debug", || doc.debug()) {
                        d.parts.push(("debug".into(), s));
                    }
                }
                d
            });
            d.parts.first().map(|p| p.1.clone())
        })
        .collect();
    let kept: Vec<Option<Doc<'static>>> =
        keep.iter().zip(&kept_base).map(|(i, b)| b.as_ref().and_then(|_| parse_any(Fl::Sim, texts[*i].1, texts[*i].0))).collect();
    for (n, c) in cuts.iter().enumerate() {
        let before = ledger();
        let (t, _) = texts[c.text];
        let what = format!(
            "call {n}{}{}: {}",
            if c.on_kept { " on an existing document" } else { "" },
            match c.fault {
                Some((i, Fault::Panic { at, id })) => format!(" (text callback {at} of its step {i} panics with payload {id})"),
                _ => String::new(),
            },
            describe(&c.op, t)
        );
        note(|| what.clone());
        let mut env = Env::of(c.base);
        env.fault = c.fault;
        let d = if c.on_kept {
            let mut d = Digest::default();
            let at = keep.iter().position(|k| *k == c.text).unwrap();
            match &kept[at] {
                Some(doc) => ops::read(doc, &c.op, &mut env, &mut d),
                None => continue,
            }
            d
        } else {
            ops::perform(&c.op, t, &mut env)
        };
        if env.fired {
            shm::nontrivial();
            let id = match c.fault {
                Some((_, Fault::Panic { id, .. })) => id,
                _ => 0,
            };
            match &d.fault {
                Some(f) if f.starts_with(&format!("caller panic {id} in")) => {}
                _ => violation(
                    "panic-not-propagated",
                    &format!("{what}: the caller's panic did not come out; got {}", ops::show(&d.parts.last().map(|p| format!("{}: {}", p.0, p.1)).unwrap_or_default())),
                ),
            }
        } else if let Some(x) = d.diff(c.base) {
            violation("wrong-result", &format!("{what}: {x}"));
        }
        let after = ledger();
        if after != before {
            violation(
                "text-values-leaked",
                &format!("{what}: {before} text values were alive before the call and {after} afterwards, when everything it returned had been dropped"),
            );
        }
        for (k, b) in kept.iter().zip(&kept_base) {
            if let (Some(doc), Some(b)) = (k, b) {
                let now = doc.debug();
                if &now != b {
                    violation("existing-value-changed", &format!("{what}: a document made before is now {}", ops::show(&now)));
                }
            }
        }
    }
    drop(kept);
    let left = ledger();
    if left != 0 {
        violation("text-values-leaked", &format!("{left} text values alive after every document was dropped"));
    }
}

// ----------------------------------------------------------------------------------------- C06

/// Repeats `f`: true if every repetition leaves more memory allocated than the one before.
fn grows(mut f: impl FnMut()) -> Option<i64> {
    f();
    f();
    let mut last = ctx::live();
    let mut least = i64::MAX;
    for _ in 0..4 {
        f();
        let now = ctx::live();
        least = least.min(now - last);
        if least <= 0 {
            return None;
        }
        last = now;
    }
    Some(least)
}

pub fn c06(src: &'static mut Src) {
    let pool: Vec<Text> = texts::pool(src, 3);
    let mut bases = Bases::default();
    let n = src.range(1, 4);
    let mut plan = Vec::new();
    for _ in 0..n {
        let at = src.pos();
        let text = src.below(pool.len() as u64) as usize;
        let op = ops::draw_op(src, pool[text].schema);
        let base = bases.get(&op, &pool[text].t);
        let tries = src.range(1, 10);
        let mut faults = Vec::new();
        for _ in 0..tries {
            let i = if src.chance(1, 2) { 0 } else { src.below(base.recs.len().max(1) as u64) as usize };
            if let Some(r) = base.recs.get(i) {
                // small documents allocate little: every index is met soon
                if let Some(o) = Oom::draw(src, r) {
                    faults.push((i, o));
                }
            }
        }
        let leak = src.chance(1, 3);
        plan.push((op, text, base, faults, leak));
        src.span(at);
    }
    for (op, text, base, faults, leak) in plan {
        let t = &pool[text].t;
        for (i, o) in faults {
            let f = (i, Fault::Oom(o));
            let what = format!("{} with {o} of its step {i} failing", describe(&op, t));
            note(|| what.clone());
            let mut env = Env::of(base);
            env.fault = Some(f);
            let d = ops::perform(&op, t, &mut env);
            if env.fired {
                shm::nontrivial();
            }
            let gave_up = d.fault.is_some() || d.parts.last().map(|p| p.0.ends_with("panicked")).unwrap_or(false);
            if gave_up && env.fired {
                // what was finished before the failure is as usual
                let k = d.parts.len() - d.fault.is_none() as usize;
                let part = Digest { parts: d.parts[..k].to_vec(), ..Digest::default() };
                let full = Digest { parts: base.parts[..k.min(base.parts.len())].to_vec(), ..Digest::default() };
                if let Some(x) = part.diff(&full) {
                    violation("wrong-result-without-memory", &format!("{what}: {x}"));
                }
            } else {
                if env.fired {
                    bump(Stat::P_OOM_SURVIVED, 1);
                }
                if let Some(x) = d.diff(base) {
                    violation("wrong-result-without-memory", &format!("{what}: {x}"));
                }
            }
            let again = ops::perform(&op, t, &mut Env::of(base));
            if let Some(x) = again.diff(base) {
                violation("retry-differs", &format!("{what}; made again with enough memory: {x}"));
            }
            if leak {
                let g = grows(|| {
                    let mut env = Env::of(base);
                    env.fault = Some(f);
                    drop(ops::perform(&op, t, &mut env));
                });
                if let Some(g) = g {
                    violation("memory-not-released", &format!("{what}: every repetition leaves at least {g} more bytes allocated"));
                }
            }
        }
    }
}

// ----------------------------------------------------------------------------------------- C12

struct Held {
    what: String,
    doc: Option<Doc<'static>>,
    fail: Option<String>,
    values: Vec<graphql_parser::query::Value<'static, String>>,
    text: Option<String>,
    err: Option<HeldErr>,
    base: &'static Digest,
    op: Op,
}
enum HeldErr {
    Fail(shim::Fail),
    Min(Box<dyn std::error::Error>),
}
unsafe impl Send for Held {}

/// Source memory owned by the caller, overwritten and then released.
struct Source {
    b: Vec<u8>,
}
impl Source {
    fn text(&self) -> &'static str {
        // the caller promises nothing about how long this lives: that is the point
        unsafe { std::mem::transmute::<&str, &'static str>(std::str::from_utf8(&self.b).unwrap()) }
    }
    fn destroy(mut self, how: u64) {
        bump(Stat::F_SCRIBBLE, 1);
        for (i, x) in self.b.iter_mut().enumerate() {
            *x = match how {
                0 => b'#',
                1 => 0xFF,
                _ => b'a' + (i % 26) as u8,
            };
        }
        if how == 2 {
            // its place is taken by another text at once
            let n = self.b.len();
            let cap = self.b.capacity();
            drop(self);
            let mut again: Vec<u8> = Vec::with_capacity(cap);
            again.resize(n, b'Z');
            std::hint::black_box(&again);
        }
        bump(Stat::F_FREE, 1);
    }
}

fn observe(h: &Held, env: &mut Env) -> Digest {
    let mut d = Digest::default();
    if let Some(doc) = &h.doc {
        ops::read(doc, &h.op, env, &mut d);
    }
    if let Some(s) = &h.fail {
        d.parts.push(("eager".into(), s.clone()));
    }
    for v in &h.values {
        if let Outcome::Done(s) = env.call("value", || shim::value_debug(v)) {
            d.parts.push(("value".into(), s));
        }
    }
    if let Some(t) = &h.text {
        d.parts.push(("minified".into(), t.clone()));
    }
    match &h.err {
        Some(HeldErr::Fail(e)) => {
            for (k, r) in [("error", env.call("error", || e.display())), ("error debug", env.call("error debug", || e.debug()))] {
                if let Outcome::Done(s) = r {
                    d.parts.push((k.into(), s));
                }
            }
        }
        Some(HeldErr::Min(e)) => {
            if let Outcome::Done(s) = env.call("minify error", || format!("{e} {e:?}")) {
                d.parts.push(("minify error".into(), s));
            }
        }
        None => {}
    }
    d.recs = std::mem::take(&mut env.recs);
    d
}

/// Makes the calls whose results are kept; `values` are taken from a document with borrowed text.
fn obtain(op: &Op, schema: bool, t: &'static str, values: bool, clone_first: bool) -> Held {
    static NONE: std::sync::LazyLock<Digest> = std::sync::LazyLock::new(Digest::default);
    let mut h = Held { what: String::new(), doc: None, fail: None, values: vec![], text: None, err: None, base: &NONE, op: *op };
    if op.entry == Entry::Minify {
        match shim::minify(t.to_string()) {
            Ok(s) => h.text = Some(s),
            Err(e) => h.err = Some(HeldErr::Min(e)),
        }
        return h;
    }
    let fl = if values { op.fl } else { Fl::Own };
    let r = if schema {
        shim::parse_schema(fl, t)
    } else if op.entry == Entry::Consume {
        shim::consume(fl, t).map(|x| x.0)
    } else {
        shim::parse_query(fl, t)
    };
    match r {
        Ok(doc) if values => {
            h.values = doc.static_values();
        }
        Ok(doc) => {
            let doc = if clone_first { doc.duplicate() } else { doc };
            h.doc = doc.into_static();
        }
        Err(e) => h.err = Some(HeldErr::Fail(e)),
    }
    h
}

pub fn c12(src: &'static mut Src) {
    let pool: Vec<Text> = texts::pool(src, 4);
    let n = src.range(1, 6) as usize;
    let threads = src.range(1, 3) as usize;
    struct P {
        op: Op,
        text: usize,
        values: bool,
        clone_first: bool,
        destroy: u64,
        maker: usize,
        user: usize,
        base: &'static Digest,
        shared_source: bool,
    }
    let mut plan: Vec<P> = Vec::new();
    for _ in 0..n {
        let at = src.pos();
        let text = src.below(pool.len() as u64) as usize;
        let mut op = ops::draw_op(src, pool[text].schema);
        op.stages = (op.stages | ops::DEBUG) & !ops::STATIC;
        let values = src.chance(1, 3);
        let schema = op.entry == Entry::Schema;
        let clone_first = src.chance(1, 3);
        let t: &'static str = Box::leak(pool[text].t.clone().into_boxed_str());
        let base = ops::base_of(|env| {
            // in the fresh process the source stays as it is
            let h = obtain(&op, schema, t, values, clone_first);
            observe(&h, env)
        });
        plan.push(P {
            op,
            text,
            values,
            clone_first,
            destroy: src.below(3),
            maker: src.below(threads as u64) as usize,
            user: src.below(threads as u64) as usize,
            base,
            shared_source: src.chance(1, 3),
        });
        src.span(at);
    }
    let leak_check = src.chance(1, 2);
    let plan = std::sync::Arc::new(plan);
    let pool = std::sync::Arc::new(pool);
    // slot i holds result i between its maker and its user
    let slots: std::sync::Arc<Vec<std::sync::Mutex<(u8, Option<Held>)>>> =
        std::sync::Arc::new((0..plan.len()).map(|_| std::sync::Mutex::new((0, None))).collect());
    let mut bodies: Vec<Body> = Vec::new();
    let slice = Slice::Scale(src.range(8, 16));
    for k in 0..threads {
        let (plan, pool, slots) = (plan.clone(), pool.clone(), slots.clone());
        bodies.push(Box::new(move |th: &Th| {
            // a caller's buffer that several sources pass through
            let mut shared: Vec<u8> = Vec::with_capacity(pool.iter().map(|t| t.t.len()).max().unwrap_or(0) + 8);
            for (i, p) in plan.iter().enumerate() {
                if p.maker != k {
                    continue;
                }
                let what = format!("result {i} ({}{})", describe(&p.op, &pool[p.text].t), if p.values { ", its values only" } else { "" });
                note(|| format!("thread {k} makes {what}"));
                let none = Digest::default();
                let mut env = Env::on(&none, th);
                env.slack = 400_000_000;
                let schema = p.op.entry == Entry::Schema;
                let b = pool[p.text].t.as_bytes();
                let (source, t): (Option<Source>, &'static str) = if p.shared_source {
                    shared.clear();
                    shared.extend_from_slice(b);
                    (None, unsafe { std::mem::transmute::<&str, &'static str>(std::str::from_utf8(&shared).unwrap()) })
                } else {
                    let s = Source { b: b.to_vec() };
                    let t = s.text();
                    (Some(s), t)
                };
                let r = env.call("make", || obtain(&p.op, schema, t, p.values, p.clone_first));
                if t.as_bytes() != b {
                    violation("source-changed", &format!("{what}: the source text was changed by the call"));
                }
                note(|| format!("thread {k} overwrites and frees the source of result {i}"));
                match source {
                    Some(s) => s.destroy(p.destroy),
                    None => {
                        bump(Stat::F_SCRIBBLE, 1);
                        shared.iter_mut().for_each(|x| *x = b'%');
                    }
                }
                shm::nontrivial();
                match r {
                    Outcome::Done(mut h) => {
                        h.base = p.base;
                        h.what = what;
                        *slots[i].lock().unwrap() = (1, Some(h));
                    }
                    o => violation("wrong-result", &format!("{what}: {:?}", o.map(|_| ()))),
                }
                th.yield_between();
            }
            // use what is there; what another thread has not made yet is looked at later
            let mine: Vec<usize> = (0..plan.len()).filter(|i| plan[*i].user == k).collect();
            let mut left = mine.clone();
            while !left.is_empty() {
                let mut rest = Vec::new();
                for i in left {
                    let h = slots[i].lock().unwrap().1.take();
                    match h {
                        Some(h) => {
                            note(|| format!("thread {k} uses and drops {}", h.what));
                            let mut env = Env::on(h.base, th);
                            let d = observe(&h, &mut env);
                            if let Some(x) = d.diff(h.base) {
                                violation("depends-on-source", &format!("{}: after its source was overwritten and freed, {x}", h.what));
                            }
                            drop(h);
                        }
                        None => rest.push(i),
                    }
                }
                left = rest;
                th.yield_between();
            }
        }));
    }
    let rep = sched::run(bodies, slice, 32 << 20, src);
    if rep.deadlock {
        violation("deadlock", "threads wait for one another inside the library");
    }
    if leak_check {
        for p in plan.iter() {
            let schema = p.op.entry == Entry::Schema;
            let g = grows(|| {
                let s = Source { b: pool[p.text].t.clone().into_bytes() };
                let h = obtain(&p.op, schema, s.text(), p.values, p.clone_first);
                s.destroy(1);
                drop(observe(&h, &mut Env::of(p.base)));
                drop(h);
            });
            if let Some(g) = g {
                violation(
                    "memory-not-released",
                    &format!("{}: every repetition leaves at least {g} more bytes allocated after everything was dropped", describe(&p.op, &pool[p.text].t)),
                );
            }
        }
    }
    let _ = draw_fault as fn(&mut Src, &Digest, &Op) -> Option<(usize, Fault)>;
}
