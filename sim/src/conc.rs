//! C01 (concurrent calls), C02 (histories), C03 (stalled and nested calls).
use crate::ops::{self, Bases, Digest, Entry, Env, Fault, Oom, Op};
use crate::texts::{self, Text};
use shim::{Doc, Fl};
use simrt::ctx::Outcome;
use simrt::sched::{self, Body, Slice, Stall, Th};
use simrt::shm::{self, Stat};
use simrt::{bump, note, violation, Src};
use std::cell::RefCell;
use std::sync::{Arc, Mutex};

pub struct Shared {
    pub doc: Doc<'static>,
}
// documents hold no interior mutability; what the caller's text type does is under the simulator
unsafe impl Send for Shared {}
unsafe impl Sync for Shared {}

fn leak(t: &str) -> &'static str {
    Box::leak(t.to_string().into_boxed_str())
}
pub fn parse_any(fl: Fl, schema: bool, t: &'static str) -> Option<Doc<'static>> {
    if schema {
        shim::parse_schema(fl, t).ok()
    } else {
        shim::parse_query(fl, t).ok()
    }
}
pub fn describe(op: &Op, t: &str) -> String {
    format!("{} as {:?} (indent {}, multiline {}, stages {:#b}) of {}", ops::kind(op), op.fl, op.indent, op.multiline, op.stages, ops::show(t))
}
fn slice_for(s: &mut Src, total: u64) -> Slice {
    match s.weighted(&[4, 4, 3, 1]) {
        0 => {
            // so long slices that there are at most a few hundred switches
            let mut lo = 3;
            while lo < 24 && total / ((1u64 << lo) / 4).max(1) > 400 {
                lo += 1;
            }
            Slice::Scale(s.range(lo, lo + 6))
        }
        1 => Slice::Fresh(*s.pick(&[1, 2, 4])),
        2 => Slice::Uniform((total / s.range(2, 200)).max(8)),
        _ => Slice::Never,
    }
}

enum Job {
    Call { op: Op, text: usize, base: &'static Digest },
    Read { op: Op, doc: usize, base: &'static Digest },
    /// compare two shared documents with each other, or clone one and drop it elsewhere
    Equal { a: usize, b: usize, expect: bool },
}

/// What a thread still does when its thread-local values are released.
struct Late(Option<(Op, String, &'static Digest)>);
impl Drop for Late {
    fn drop(&mut self) {
        if let Some((op, t, base)) = self.0.take() {
            let d = ops::perform(&op, &t, &mut Env::of(base));
            if let Some(x) = d.diff(base) {
                violation("wrong-result", &format!("a thread that is ending (in the destructor of a thread-local value), {}: {x}", describe(&op, &t)));
            }
        }
    }
}
thread_local! {
    static LATE: RefCell<Late> = const { RefCell::new(Late(None)) };
}
/// Threads that come and go, one after another.
fn crowd(src: &mut Src, pool: &[Text], bases: &mut Bases) {
    let n = if src.chance(1, 3) { (1 << src.range(2, 8)) - src.range(0, 3) } else { 1 + src.scale(7) };
    let mut cast = Vec::new();
    for _ in 0..src.range(1, 4) {
        let t = src.pick(pool).clone();
        let op = ops::draw_op(src, t.schema);
        let base = bases.get(&op, &t.t);
        cast.push((op, t.t, base));
    }
    note(|| format!("first {n} threads, one after another"));
    for k in 0..n {
        let (op, t, base) = cast[(k % cast.len() as u64) as usize].clone();
        let late = if src.chance(1, 4) { Some(src.pick(&cast).clone()) } else { None };
        bump(Stat::P_CROWD, 1);
        let body = move || {
            if late.is_some() {
                // its destructor is registered before any of the library's and runs after them
                LATE.with(|l| l.borrow_mut().0 = late);
            }
            let d = ops::perform(&op, &t, &mut Env::of(base));
            if let Some(x) = d.diff(base) {
                violation("wrong-result", &format!("the only thread running, thread {k} of the process, {}: {x}", describe(&op, &t)));
            }
        };
        match std::thread::Builder::new().stack_size(32 << 20).spawn(body) {
            Ok(h) => {
                if let Err(p) = h.join() {
                    simrt::ctx::unexpected(p);
                }
            }
            Err(_) => shm::harness_error("cannot spawn thread"),
        }
    }
}

pub fn c01(src: &'static mut Src) {
    let before = shm::stat(Stat::PREEMPT);
    let pool: Vec<Text> = texts::pool(src, 4);
    let mut bases = Bases::default();
    // documents shared by reference
    let mut plan_docs: Vec<(Fl, bool, &'static str)> = Vec::new();
    for _ in 0..src.weighted(&[3, 3, 1]) {
        let t = src.pick(&pool).clone();
        plan_docs.push((*src.pick(&shim::FLAVOURS), t.schema, leak(&t.t)));
    }
    // now and then so many that they cannot all have a slot of their own in a small table
    let many = src.chance(1, 8);
    let nth = if many { *src.pick(&[9, 17, 18, 33, 34]) } else { src.range(2, 5) as usize };
    let mut plans: Vec<Vec<Job>> = Vec::new();
    let mut total = 0;
    let whole = Op { entry: Entry::Query, fl: Fl::Own, indent: 2, multiline: false, stages: ops::DEBUG, node: 0 };
    let read_base = |op: Op, (fl, schema, t): (Fl, bool, &'static str)| {
        ops::base_of(move |env| {
            let mut d = Digest::default();
            if let Some(doc) = parse_any(fl, schema, t) {
                ops::read(&doc, &op, env, &mut d);
            }
            d.recs = std::mem::take(&mut env.recs);
            d
        })
    };
    // the plan is drawn completely before the library is called in this process
    let doc_ok: Vec<Option<&'static Digest>> = plan_docs
        .iter()
        .map(|x| {
            let d = read_base(whole, *x);
            if d.parts.is_empty() {
                None
            } else {
                Some(d)
            }
        })
        .collect();
    let good: Vec<usize> = (0..plan_docs.len()).filter(|i| doc_ok[*i].is_some()).collect();
    // then most of them do one of a few things
    let cast: Vec<(usize, Op)> = (0..src.range(1, 3))
        .map(|_| {
            let text = src.below(pool.len() as u64) as usize;
            let mut op = ops::draw_op(src, pool[text].schema);
            if src.chance(1, 2) {
                op.stages = ops::ALL;
            }
            (text, op)
        })
        .collect();
    for _ in 0..nth {
        let n = if many { 1 } else { src.range(1, 4) };
        let mut v = Vec::new();
        if many && src.chance(3, 4) {
            let (text, op) = src.pick(&cast).clone();
            let base = bases.get(&op, &pool[text].t);
            total += base.steps();
            plans.push(vec![Job::Call { op, text, base }]);
            continue;
        }
        for _ in 0..n {
            let at = src.pos();
            if !good.is_empty() && src.chance(2, 5) {
                let doc = *src.pick(&good);
                if src.chance(1, 6) {
                    let b = *src.pick(&good);
                    let same_type = plan_docs[doc].0 == plan_docs[b].0 && plan_docs[doc].1 == plan_docs[b].1;
                    if same_type {
                        let expect = doc_ok[doc].unwrap().parts == doc_ok[b].unwrap().parts;
                        v.push(Job::Equal { a: doc, b, expect });
                    }
                } else {
                    let mut op = ops::draw_op(src, plan_docs[doc].1);
                    op.fl = plan_docs[doc].0;
                    op.stages &= !ops::STATIC;
                    let base = read_base(op, plan_docs[doc]);
                    total += base.steps();
                    v.push(Job::Read { op, doc, base });
                }
            } else {
                let text = src.below(pool.len() as u64) as usize;
                let op = ops::draw_op(src, pool[text].schema);
                let base = bases.get(&op, &pool[text].t);
                total += base.steps();
                v.push(Job::Call { op, text, base });
            }
            src.span(at);
        }
        plans.push(v);
    }
    if src.chance(1, 10) {
        crowd(src, &pool, &mut bases);
    }
    let slice = slice_for(src, total);
    note(|| format!("{nth} threads, time slices {slice:?}"));
    let docs: Arc<Vec<Shared>> = Arc::new(
        plan_docs
            .iter()
            .map(|(fl, schema, t)| Shared { doc: parse_any(*fl, *schema, t).unwrap_or_else(|| parse_any(Fl::Own, false, "{a}").unwrap()) })
            .collect(),
    );
    let pool = Arc::new(pool);
    let mut bodies: Vec<Body> = Vec::new();
    for (k, plan) in plans.into_iter().enumerate() {
        let (pool, docs) = (pool.clone(), docs.clone());
        bodies.push(Box::new(move |th: &Th| {
            for job in plan {
                match job {
                    Job::Call { op, text, base } => {
                        let t = &pool[text].t;
                        note(|| format!("thread {k}: {}", describe(&op, t)));
                        let d = ops::perform(&op, t, &mut Env::on(base, th));
                        if let Some(x) = d.diff(base) {
                            violation("wrong-result", &format!("thread {k}, {}: {x}", describe(&op, t)));
                        }
                    }
                    Job::Read { op, doc, base } => {
                        bump(Stat::P_SHARED, 1);
                        note(|| format!("thread {k}: reads shared document {doc} ({:?}, stages {:#b})", op.fl, op.stages));
                        let mut d = Digest::default();
                        ops::read(&docs[doc].doc, &op, &mut Env::on(base, th), &mut d);
                        if let Some(x) = d.diff(base) {
                            violation("wrong-result", &format!("thread {k}, shared document {doc}: {x}"));
                        }
                    }
                    Job::Equal { a, b, expect } => {
                        let none = Digest::default();
                        let mut env = Env::on(&none, th);
                        match env.call("compare", || docs[a].doc.same(&docs[b].doc)) {
                            Outcome::Done(r) if r == expect => {}
                            _ => violation("wrong-result", &format!("thread {k}: comparing shared documents {a} and {b} did not give {expect}")),
                        }
                    }
                }
            }
        }));
    }
    let rep = sched::run(bodies, slice, 32 << 20, src);
    if rep.deadlock {
        violation("deadlock", "threads wait for one another inside the library");
    }
    for i in good {
        let d = docs[i].doc.debug();
        if d != doc_ok[i].unwrap().parts[0].1 {
            violation("shared-document-changed", &format!("shared document {i} is now {}", ops::show(&d)));
        }
    }
    if shm::stat(Stat::PREEMPT) > before {
        shm::nontrivial();
    }
}

// ----------------------------------------------------------------------------------------- C02

/// A writer that stops accepting.
pub struct Limited {
    pub left: usize,
    pub panic: bool,
}
impl std::fmt::Write for Limited {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        if s.len() > self.left {
            if self.panic {
                bump(Stat::F_SINK_PANIC, 1);
                simrt::ctx::caller_panic(7);
            }
            bump(Stat::F_SINK_ERR, 1);
            return Err(std::fmt::Error);
        }
        self.left -= s.len();
        Ok(())
    }
}

struct Item {
    op: Op,
    text: usize,
    base: &'static Digest,
    fault: Option<(usize, Fault)>,
    sink: Option<(usize, bool)>,
    in_place: bool,
    times: u32,
}

pub fn draw_fault(src: &mut Src, base: &Digest, op: &Op) -> Option<(usize, Fault)> {
    if base.recs.is_empty() {
        return None;
    }
    let i = src.below(base.recs.len() as u64) as usize;
    let r = &base.recs[i];
    if op.fl == Fl::Sim && r.cbs > 0 && src.chance(1, 2) {
        return Some((i, Fault::Panic { at: src.below(r.cbs), id: src.range(1, 1000) }));
    }
    Oom::draw(src, r).map(|o| (i, Fault::Oom(o)))
}

fn history(items: Vec<Item>, pool: &[Text], th: Option<&Th>, who: usize, buf: &mut Vec<u8>) {
    let mut seen = std::collections::HashSet::new();
    for (n, it) in items.iter().enumerate() {
        for rep in 0..it.times.max(1) {
            let t: &str = if it.in_place {
                // the caller reuses one buffer for one source text after another
                bump(Stat::F_REUSE, 1);
                let src = pool[it.text].t.as_bytes();
                buf.clear();
                buf.extend_from_slice(src);
                std::str::from_utf8(buf).unwrap()
            } else {
                &pool[it.text].t
            };
            if seen.iter().any(|x: &(usize, usize)| x.0 == t.len() && x.1 != it.text) {
                bump(Stat::P_COLLIDE, 1);
            }
            seen.insert((t.len(), it.text));
            if rep == 0 {
                note(|| {
                    format!(
                        "thread {who}, call {n}{}{}{}{}: {}",
                        if it.times > 1 { format!(" ({} times)", it.times) } else { String::new() },
                        if it.in_place { " (source in the reused buffer)" } else { "" },
                        match it.fault {
                            Some((c, Fault::Panic { at, .. })) => format!(" (text callback {at} of its step {c} panics)"),
                            Some((c, Fault::Oom(o))) => format!(" ({o} of its step {c} fails)"),
                            Some((c, Fault::Nest { at, .. })) => format!(" (nested call from callback {at} of its step {c})"),
                            None => String::new(),
                        },
                        match it.sink {
                            Some((l, p)) => format!(" (then rendered into a writer that {} after {l} bytes)", if p { "panics" } else { "fails" }),
                            None => String::new(),
                        },
                        describe(&it.op, t)
                    )
                });
            }
            let mut env = match th {
                Some(th) => Env::on(it.base, th),
                None => Env::of(it.base),
            };
            env.fault = it.fault;
            let d = ops::perform(&it.op, t, &mut env);
            if d.fault.is_none() {
                if let Some(x) = d.diff(it.base) {
                    violation("history-dependent", &format!("thread {who}, call {n} (repetition {rep}), {}: {x}", describe(&it.op, t)));
                }
            } else {
                shm::nontrivial();
            }
            if let Some((left, panic)) = it.sink {
                let mut env = Env::alone();
                env.th = th;
                let doc = match it.op.entry {
                    Entry::Schema => shim::parse_schema(it.op.fl, t),
                    _ => shim::parse_query(it.op.fl, t),
                };
                let mut w = Limited { left, panic };
                match doc {
                    Ok(doc) => {
                        let _ = env.call("render into a failing writer", || doc.write(&mut w));
                    }
                    Err(e) => {
                        let _ = env.call("render error into a failing writer", || shim::write_node(e.node(), &mut w, 0));
                    }
                };
            }
        }
    }
}

/// A call, then another one as often as it takes a small counter to come round, then a third one.
fn wrapped(src: &mut Src, pool: &[Text], bases: &mut Bases) {
    const TINY: [(bool, &str); 8] = [
        (false, "{a}"),
        (false, "query($v:[A!]=\"\\n\"){a}"),
        (false, "{a{b}}{c}"),
        (false, "{a(b:\"\"\"x\"\"\")}"),
        (false, "{a(b:?)}"),
        (true, "scalar A"),
        (true, "\"d\" type A{a(b:C=1.5):D}"),
        (true, "union A="),
    ];
    // what is written on one line leaves more of a formatter's state alone
    const LINE: [(bool, &str); 4] = [(true, "scalar A"), (true, "union A=B"), (true, "directive@d on FIELD"), (true, "extend scalar A@d")];
    bump(Stat::P_LONGHIST, 1);
    {
        let mut one = |src: &mut Src| {
            let t = src.pick(pool).clone();
            let mut op = ops::draw_op(src, t.schema);
            op.stages |= ops::FORMAT;
            let base = bases.get(&op, &t.t);
            (op, t.t, base)
        };
        let first = one(src);
        let last = if src.chance(1, 2) {
            one(src)
        } else {
            // the same text, and another style
            let mut op = first.0;
            (op.indent, op.multiline) = ops::draw_style(src);
            (op, first.1.clone(), bases.get(&op, &first.1))
        };
        let (schema, t) = if src.chance(1, 2) { *src.pick(&LINE) } else { *src.pick(&TINY) };
        let mut op = ops::draw_op(src, schema);
        op.stages = *src.pick(&[ops::FORMAT, ops::DISPLAY, 0, ops::NODE, ops::FORMAT, ops::DEBUG, ops::CLONE, ops::VALUES, ops::STATIC]);
        if op.entry == Entry::Location {
            op.entry = Entry::Query;
        }
        let base = bases.get(&op, t);
        let round = if src.chance(1, 3) { 256 } else { 65536 };
        // calls that count, beside the first and the last one
        let n = match src.below(8) {
            6 => round / 2 - src.below(4),
            7 => round + src.below(100),
            k => round - k % 4,
        };
        note(|| format!("one call, then {n} times {}, then another call", describe(&op, t)));
        for k in 0..n + 2 {
            let (op, t, base) = if k == 0 {
                (&first.0, &*first.1, first.2)
            } else if k == n + 1 {
                (&last.0, &*last.1, last.2)
            } else {
                (&op, t, base)
            };
            let d = ops::perform(op, t, &mut Env::of(base));
            if let Some(x) = d.diff(base) {
                violation("history-dependent", &format!("call {k} of {}, {}: {x}", n + 2, describe(op, t)));
            }
        }
    }
}

pub fn c02(src: &'static mut Src) {
    let pool: Vec<Text> = texts::pool(src, 6);
    let mut bases = Bases::default();
    let threads = src.weighted(&[6, 2, 1]) + 1;
    let long = src.chance(1, 40);
    let huge = src.chance(1, 64);
    let mut plans = Vec::new();
    let mut calls = 0u64;
    for _ in 0..threads {
        let n = if long { 300 } else { src.range(2, 24) };
        let mut v = Vec::new();
        for _ in 0..n {
            let at = src.pos();
            let mut text = src.below(pool.len() as u64) as usize;
            if n > 100 && pool[text].t.len() > 3000 {
                text = (0..pool.len()).min_by_key(|i| pool[*i].t.len()).unwrap();
            }
            let mut op = ops::draw_op(src, pool[text].schema);
            if long {
                op.stages &= *src.pick(&[ops::DEBUG, ops::FORMAT, ops::DISPLAY, ops::NODE | ops::STATIC]);
            }
            let base = bases.get(&op, &pool[text].t);
            let fault = if src.chance(2, 5) { draw_fault(src, base, &op) } else { None };
            let sink = if src.chance(1, 8) { Some((src.scale(8) as usize, src.chance(1, 4))) } else { None };
            let times = if src.chance(1, 12) { src.range(2, 5) as u32 } else { 1 };
            calls += times as u64;
            let in_place = src.chance(1, 2);
            v.push(Item { op, text, base, fault, sink, in_place, times });
            src.span(at);
            // then what lies in the same place is another text of the same length
            let alike: Vec<usize> = (0..pool.len())
                .filter(|i| pool[*i].t.len() == pool[text].t.len() && pool[*i].schema == pool[text].schema && pool[*i].t != pool[text].t)
                .collect();
            if in_place && !long && !alike.is_empty() && src.chance(1, 3) {
                let at = src.pos();
                let text = *src.pick(&alike);
                calls += 1;
                v.push(Item { op, text, base: bases.get(&op, &pool[text].t), fault: None, sink: None, in_place, times: 1 });
                src.span(at);
            }
        }
        plans.push(v);
    }
    if calls > 256 {
        bump(Stat::P_LONGHIST, 1);
    }
    if src.chance(1, 16) {
        crowd(src, &pool, &mut bases);
    }
    if huge {
        wrapped(src, &pool, &mut bases);
    }
    let capacity = pool.iter().map(|t| t.t.len()).max().unwrap_or(0) + 1;
    shm::nontrivial();
    if threads == 1 {
        let mut buf = Vec::with_capacity(capacity);
        history(plans.pop().unwrap(), &pool, None, 0, &mut buf);
        return;
    }
    let pool = Arc::new(pool);
    // one buffer for all threads: calls do not overlap here
    let buf = Arc::new(Mutex::new(Vec::with_capacity(capacity)));
    let mut bodies: Vec<Body> = Vec::new();
    for (k, plan) in plans.into_iter().enumerate() {
        let (pool, buf) = (pool.clone(), buf.clone());
        bodies.push(Box::new(move |th: &Th| {
            for it in plan {
                th.yield_between();
                let mut b = buf.lock().unwrap_or_else(|e| e.into_inner());
                history(vec![it], &pool, Some(&NoYield::of(th)), k, &mut b);
            }
        }));
    }
    let rep = sched::run(bodies, Slice::Never, 32 << 20, src);
    if rep.deadlock {
        violation("deadlock", "a call waits for ever although no other call is in progress");
    }
}
struct NoYield;
impl NoYield {
    /// A handle whose calls are not separated by yields (the caller holds a lock meanwhile).
    fn of(th: &Th) -> Th {
        Th { id: th.id, quiet: true }
    }
}

// ----------------------------------------------------------------------------------------- C03

/// A call made from inside another one, and the callback of it from which the next one is made.
#[derive(Clone, Copy)]
struct Nested {
    op: Op,
    t: &'static str,
    base: &'static Digest,
    next: Option<(usize, u64)>,
}
thread_local! {
    /// the nested calls still to be made, the next one last
    static NEST: RefCell<Vec<Nested>> = const { RefCell::new(Vec::new()) };
}
fn nested() {
    let Some(Nested { op, t, base, next }) = NEST.with(|n| n.borrow_mut().pop()) else { return };
    note(|| format!("  nested: {}", describe(&op, t)));
    let keep = simrt::ctx::with(|c| (c.allocs.get(), c.cbs.get(), c.steps.get()));
    let mut env = Env::of(base);
    env.inner = true;
    if NEST.with(|n| !n.borrow().is_empty()) {
        env.fault = next.map(|(c, at)| (c, Fault::Nest { at, f: nested }));
    }
    let d = ops::perform(&op, t, &mut env);
    simrt::ctx::with(|c| {
        c.allocs.set(keep.0);
        c.cbs.set(keep.1);
    });
    if let Some(x) = d.diff(base) {
        violation("nested-call", &format!("nested {}: {x}", describe(&op, t)));
    }
}
/// A writer from which the library is called again.
pub struct Reentrant;
impl std::fmt::Write for Reentrant {
    fn write_str(&mut self, _: &str) -> std::fmt::Result {
        bump(Stat::F_REENTER, 1);
        simrt::leave(nested);
        Ok(())
    }
}

struct Task {
    op: Op,
    text: usize,
    base: &'static Digest,
    stall: Option<(usize, Stall)>,
    /// call and callback of it from which nested calls are made (the first one last)
    nest: Option<(usize, u64, Vec<Nested>)>,
    sink: Option<Nested>,
}
fn callback(src: &mut Src, base: &Digest) -> Option<(usize, u64)> {
    let with_cbs: Vec<usize> = (0..base.recs.len()).filter(|i| base.recs[*i].cbs > 0).collect();
    if with_cbs.is_empty() {
        return None;
    }
    let c = *src.pick(&with_cbs);
    Some((c, src.below(base.recs[c].cbs)))
}

pub fn c03(src: &'static mut Src) {
    let before = shm::stat(Stat::F_STALL) + shm::stat(Stat::F_REENTER);
    let pool: Vec<Text> = texts::pool(src, 4);
    let mut bases = Bases::default();
    // sometimes many calls are frozen at the same time, or nested deeply
    let crowded = src.chance(1, 8);
    let nth = if crowded { src.range(5, 10) as usize } else { src.range(1, 4) as usize };
    let deep = src.chance(1, 8);
    let mut plans: Vec<Vec<Task>> = Vec::new();
    let mut total = 0;
    for k in 0..nth {
        let n = if crowded { 1 } else { src.range(1, 3) };
        let mut v = Vec::new();
        for _ in 0..n {
            let at = src.pos();
            let text = src.below(pool.len() as u64) as usize;
            let mut op = ops::draw_op(src, pool[text].schema);
            let nest_wanted = src.chance(1, 3);
            if nest_wanted && src.chance(3, 4) {
                op.fl = Fl::Sim;
            }
            let base = bases.get(&op, &pool[text].t);
            total += base.steps();
            let odds = if crowded { (9, 10) } else { (if k == 0 { 2 } else { 1 }, 3) };
            let stall = if nth > 1 && !base.recs.is_empty() && src.chance(odds.0, odds.1) {
                // in a crowd in the first call, which is the parsing
                let c = if crowded && src.chance(2, 3) { 0 } else { src.below(base.recs.len() as u64) as usize };
                let st = if src.chance(1, 2) { Stall::Fresh(src.scale(11)) } else { Stall::Step(src.below(base.recs[c].steps.max(1))) };
                Some((c, st))
            } else {
                None
            };
            let mut inner = |src: &mut Src, sim: bool| {
                let x = src.pick(&pool).clone();
                let mut op = ops::draw_op(src, x.schema);
                if sim {
                    op.fl = Fl::Sim;
                }
                let base = bases.get(&op, &x.t);
                total += base.steps();
                Nested { op, t: leak(&x.t), base, next: None }
            };
            let nest = match callback(src, base) {
                Some((c, cb)) if nest_wanted => {
                    let depth = if deep { src.range(2, 12) } else { 1 };
                    let mut v = Vec::new();
                    for n in 0..depth {
                        let mut x = inner(src, n + 1 < depth);
                        x.next = callback(src, x.base);
                        v.push(x);
                        if x.next.is_none() {
                            break;
                        }
                    }
                    v.reverse();
                    Some((c, cb, v))
                }
                _ => None,
            };
            let sink = if nest_wanted && src.chance(1, 2) { Some(inner(src, false)) } else { None };
            v.push(Task { op, text, base, stall, nest, sink });
            src.span(at);
        }
        plans.push(v);
    }
    let slice = slice_for(src, total);
    note(|| format!("{nth} threads, time slices {slice:?}"));
    let pool = Arc::new(pool);
    let mut bodies: Vec<Body> = Vec::new();
    for (k, plan) in plans.into_iter().enumerate() {
        let pool = pool.clone();
        bodies.push(Box::new(move |th: &Th| {
            for task in plan {
                let t = &pool[task.text].t;
                note(|| {
                    format!(
                        "thread {k}{}{}: {}",
                        task.stall.map(|s| format!(" (frozen in its step {} at {:?})", s.0, s.1)).unwrap_or_default(),
                        task.nest.as_ref().map(|s| format!(" (nested call from text callback {} of its step {})", s.1, s.0)).unwrap_or_default(),
                        describe(&task.op, t)
                    )
                });
                let mut env = Env::on(task.base, th);
                env.stall = task.stall;
                if let Some((c, cb, v)) = task.nest {
                    env.fault = Some((c, Fault::Nest { at: cb, f: nested }));
                    env.slack = v.iter().map(|n| n.base.steps() * 4 + 20_000).sum();
                    NEST.with(|n| *n.borrow_mut() = v);
                }
                let d = ops::perform(&task.op, t, &mut env);
                if let Some(x) = d.diff(task.base) {
                    violation("wrong-result", &format!("thread {k}, {}: {x}", describe(&task.op, t)));
                }
                if let Some(x) = task.sink {
                    NEST.with(|n| *n.borrow_mut() = vec![x]);
                    let doc = match task.op.entry {
                        Entry::Schema => shim::parse_schema(task.op.fl, t),
                        _ => shim::parse_query(task.op.fl, t),
                    };
                    let none = Digest::default();
                    let mut env = Env::on(&none, th);
                    env.slack = 400_000_000;
                    let r = match &doc {
                        Ok(doc) => env.call("render into a re-entrant writer", || doc.write(&mut Reentrant)),
                        Err(e) => env.call("render error into a re-entrant writer", || shim::write_node(e.node(), &mut Reentrant, 0)),
                    };
                    match r {
                        Outcome::Done(Ok(())) => {}
                        Outcome::Done(Err(_)) => violation("wrong-result", "rendering into a re-entrant writer failed"),
                        Outcome::Panic(m) => violation("wrong-result", &format!("rendering into a re-entrant writer panicked: {m}")),
                        _ => {}
                    }
                }
            }
        }));
    }
    let rep = sched::run(bodies, slice, 32 << 20, src);
    if rep.deadlock {
        violation("blocked", "a call waits and nothing that may still run will wake it: it depends on a frozen (or its own outer) call");
    }
    if shm::stat(Stat::F_STALL) + shm::stat(Stat::F_REENTER) > before {
        shm::nontrivial();
    }
}
