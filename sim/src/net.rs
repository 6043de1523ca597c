//! C07: a stream of executable definitions through a faulty network to a receiver that consumes one
//! definition at a time and may be restarted.
use crate::model::{self, Gen, Model, QDef};
use crate::ops;
use crate::project;
use shim::{Doc, Fl};
use simrt::ctx::Outcome;
use simrt::sched;
use simrt::shm::{self, Stat};
use simrt::{bump, note, violation, Src};
use std::cmp::Reverse;
use std::collections::{BTreeMap, BinaryHeap};

struct Sent {
    def: QDef,
    /// just after the definition's last character in the stream
    end: usize,
    /// foreign payload after it
    payload: Option<String>,
}

const CAP: u64 = 400_000_000;

fn lib<T>(what: &str, f: impl FnOnce() -> T) -> T {
    sched::solo(CAP, false);
    simrt::ctx::reset_op();
    let r = simrt::enter(f);
    let n = sched::solo_steps();
    sched::solo_end();
    shm::trace(n);
    match r {
        Outcome::Done(x) => x,
        Outcome::Panic(m) => violation("panic", &format!("{what} panicked: {m}")),
        _ => shm::harness_error("fault without cause"),
    }
}

fn is_ignored(c: char) -> bool {
    matches!(c, ' ' | '\t' | '\n' | '\r' | ',' | '\u{feff}')
}
/// The position of the first significant character at or after `at`.
fn significant(s: &str, at: usize) -> usize {
    let mut i = at;
    loop {
        match s[i..].chars().next() {
            Some(c) if is_ignored(c) => i += c.len_utf8(),
            Some('#') => match s[i..].find(['\n', '\r']) {
                Some(n) => i += n,
                None => return s.len(),
            },
            _ => return i,
        }
    }
}
fn ignorable(src: &mut Src, o: &mut String) {
    let n = src.weighted(&[30, 30, 10, 5]);
    if src.chance(1, 60) {
        let k = *src.pick(&[256, 256, 65536]) + src.below(12) as usize - 6;
        match src.below(3) {
            0 => o.push_str(&" ".repeat(k)),
            1 => o.push_str(&",".repeat(k)),
            _ => o.push_str(&format!("#{}\n", "c".repeat(k - 1))),
        }
    }
    for _ in 0..n {
        o.push_str(*src.pick(&[" ", "\n", "\r\n", ",", "\t", "\u{feff}", "# x } { \"\n", "#\r\n", ", ,", "\n\n  ", "# ü😀\n"]));
    }
}
fn only(d: &Doc) -> QDef {
    match project::model(d) {
        Model::Query(mut v) if v.len() == 1 => v.pop().unwrap(),
        _ => shm::harness_error("not one definition"),
    }
}

/// Characters that are no token and no ignorable space of GraphQL, though some of them are spaces elsewhere.
const FRAMES: &[char] = &['%', '%', '\u{a0}', '\u{3000}', '\u{b}', '\u{c}', '\u{85}', '\u{2028}', '\u{200b}', '\u{1}', '\0', ';', '?', 'é', '\u{1F600}'];

/// The only definition of a text, read whole.
fn whole(t: &str) -> Option<QDef> {
    match lib("parse_query", || shim::parse_query(Fl::Own, t)) {
        Ok(d) => match project::model(&d) {
            Model::Query(mut v) if v.len() == 1 => v.pop(),
            _ => None,
        },
        Err(_) => None,
    }
}

pub fn c07(src: &'static mut Src) {
    let z = model::size(src);
    let n = src.range(1, 8) as usize;
    let mut defs = Vec::new();
    for _ in 0..n {
        let at = src.pos();
        defs.push(Gen { s: src, z }.qdef());
        src.span(at);
    }
    // ---- the sender writes the stream
    let mut stream = String::new();
    ignorable(src, &mut stream);
    let mut sent: Vec<Sent> = Vec::new();
    for def in defs {
        let at = src.pos();
        let one = Model::Query(vec![def.clone()]);
        let form = src.weighted(&[4, 3, 2]);
        let mut def = def;
        let text = match form {
            0 => model::write(src, &one),
            1 => {
                let (i, m) = ops::draw_style(src);
                let t = lib("format", || project::build(&one).format(&ops::style(i, m)));
                // (that whole floats lose their fraction is a finding about C08)
                let Model::Query(mut like) = model::loosen(&one) else { unreachable!() };
                match whole(&t) {
                    Some(d) if d == def || Some(&d) == like.last() => {
                        def = like.pop().filter(|l| *l == d).unwrap_or(def);
                        t
                    }
                    got => violation(
                        "formatted-definition-differs",
                        &format!("{def:?} formatted (indent {i}, multiline arguments {m}) is {}, which reads as {got:?}", ops::show(&t)),
                    ),
                }
            }
            _ => {
                let t = model::write(src, &one);
                match lib("minify_query", || shim::minify(t.clone())) {
                    Ok(s) => match whole(&s) {
                        Some(d) if d == def => s,
                        got => violation(
                            "minified-definition-differs",
                            &format!("{} minified is {}, which reads as {got:?} instead of {def:?}", ops::show(&t), ops::show(&s)),
                        ),
                    },
                    Err(e) => violation("minify-failed", &format!("{} cannot be minified: {e}", ops::show(&t))),
                }
            }
        };
        // (what precedes and follows the definition itself in `text` is ignorable)
        let base = stream.len();
        let mut end = text.len();
        if form == 0 {
            end = end_of(&text);
        } else {
            while text[..end].ends_with(is_ignored) {
                end -= text[..end].chars().next_back().unwrap().len_utf8();
            }
        }
        stream.push_str(&text);
        // a comment that the definition's own layout ends with must not swallow what follows
        if significant(&text, end) == text.len() && text[end..].contains('#') && !text.ends_with(['\n', '\r']) {
            stream.push('\n');
        }
        ignorable(src, &mut stream);
        let payload = if src.chance(1, 5) {
            let p: String = (0..src.scale(6)).map(|_| *src.pick(&['{', '}', 'a', '"', '#', '\n', '😀', ' ', '\\', '('])).collect();
            // (what begins a frame is nothing that a document could go on with)
            stream.push_str(&format!("{}{}:{}", src.pick(FRAMES), p.len(), p));
            ignorable(src, &mut stream);
            Some(p)
        } else {
            None
        };
        sent.push(Sent { def, end: base + end, payload });
        src.span(at);
    }
    note(|| format!("stream of {} definitions: {:?}", sent.len(), stream));
    let fl = *src.pick(&shim::FLAVOURS);
    note(|| format!("receiver holds text as {fl:?}"));
    // ---- network and receiver
    let bytes = stream.as_bytes();
    let mut q: BinaryHeap<Reverse<(u64, u64, usize, usize, u64)>> = BinaryHeap::new(); // (time, seq, from, to, connection)
    let (mut now, mut seq, mut conn) = (0u64, 0u64, 1u64);
    // (a long stream comes in at most some hundred pieces, a very long one in fewer)
    let max_chunk = (*src.pick(&[1u64, 3, 8, 40, 200, 4000])).max(if bytes.len() > 4000 { bytes.len() as u64 / 40 } else { bytes.len() as u64 / 250 });
    let faults = src.chance(3, 4);
    let send = |src: &mut Src, q: &mut BinaryHeap<_>, seq: &mut u64, now: u64, from: usize, conn: u64| {
        let mut at = from;
        let mut t = now;
        while at < bytes.len() {
            let n = (1 + src.below(max_chunk) as usize).min(bytes.len() - at);
            t += 1 + src.below(20);
            let mut arrive = t;
            if faults && src.chance(1, 12) {
                arrive += src.scale(12);
                bump(Stat::F_STALLNET, 1);
            }
            *seq += 1;
            q.push(Reverse((arrive, *seq, at, at + n, conn)));
            if faults && src.chance(1, 12) {
                *seq += 1;
                bump(Stat::F_DUP, 1);
                q.push(Reverse((arrive + src.below(300), *seq, at, at + n, conn)));
            }
            at += n;
        }
    };
    // the receiver: durable part (offset of the next definition, definitions taken) and buffer
    let mut committed = 0usize;
    let mut taken: Vec<QDef> = Vec::new();
    let mut payloads: Vec<(usize, String)> = Vec::new();
    let mut have: usize = 0; // bytes received in order
    let mut early: BTreeMap<usize, usize> = BTreeMap::new();
    send(src, &mut q, &mut seq, now, 0, conn);
    let mut drops = if faults { src.below(4) } else { 0 };
    let mut attempts = 0u64;
    loop {
        let Some(Reverse((t, _, from, to, c))) = q.pop() else {
            break;
        };
        now = now.max(t);
        if c != conn {
            continue; // the connection it belonged to is gone
        }
        if drops > 0 && src.chance(1, 10) {
            drops -= 1;
            conn += 1;
            early.clear();
            if src.chance(1, 2) {
                // the receiver restarts: only what it committed survives
                bump(Stat::F_RESTART, 1);
                note(|| format!("t={now} receiver restarts at offset {committed}"));
                have = committed;
            } else {
                bump(Stat::F_DROP, 1);
                note(|| format!("t={now} connection drops at offset {have}"));
            }
            let resume = have;
            let at = now + src.range(1, 500);
            send(src, &mut q, &mut seq, at, resume, conn);
            continue;
        }
        if from > have {
            bump(Stat::F_REORDER, 1);
            let e = early.entry(from).or_insert(to);
            *e = (*e).max(to);
            continue;
        }
        have = have.max(to);
        while let Some((&f, &t2)) = early.iter().next() {
            if f > have {
                break;
            }
            have = have.max(t2);
            early.remove(&f);
        }
        bump(Stat::F_CHUNK, 1);
        let eof = have == bytes.len();
        // consume what is complete; now and then the receiver is lazy
        if !eof && src.chance(1, 4) {
            continue;
        }
        // only whole characters can be handed over
        let valid = match std::str::from_utf8(&bytes[committed..have]) {
            Ok(s) => s,
            Err(e) => std::str::from_utf8(&bytes[committed..committed + e.valid_up_to()]).unwrap(),
        };
        let mut buf = valid;
        loop {
            // frames of foreign payload are the receiver's own business
            let skip = significant(buf, 0);
            if let Some(mark) = buf[skip..].chars().next().filter(|m| FRAMES.contains(m)) {
                let head = skip + mark.len_utf8();
                let f = &buf[head..];
                let Some(c) = f.find(':') else { break };
                let Ok(n) = f[..c].parse::<usize>() else { shm::harness_error("bad frame") };
                if f.len() < c + 1 + n {
                    break;
                }
                payloads.push((taken.len(), f[c + 1..c + 1 + n].to_string()));
                committed += head + c + 1 + n;
                buf = &buf[head + c + 1 + n..];
                continue;
            }
            if skip == buf.len() {
                break;
            }
            attempts += 1;
            if attempts > 3000 {
                // very fine fragmentation of a long stream: enough was seen
                shm::nontrivial();
                return;
            }
            let input = buf;
            let r = lib("consume_definition", || shim::consume(fl, input));
            match r {
                Err(e) => {
                    if taken.len() >= sent.len() {
                        break;
                    }
                    let next = &sent[taken.len()];
                    let arrived = committed + input.len();
                    if arrived >= next.end {
                        violation(
                            "definition-not-consumed",
                            &format!(
                                "definition {} has arrived completely in {} but consume_definition says: {}",
                                taken.len(),
                                ops::show(input),
                                e.display()
                            ),
                        );
                    }
                    bump(Stat::P_PARTIAL, 1);
                    break;
                }
                Ok((doc, rest)) => {
                    let def = only(&doc);
                    lib("drop", || drop(doc));
                    if taken.len() >= sent.len() {
                        violation("extra-definition", &format!("a definition was consumed after all {} that were sent: {def:?}", sent.len()));
                    }
                    let next = &sent[taken.len()];
                    let used = input.len() - rest.len();
                    let ptr_ok = std::ptr::eq(rest.as_ptr(), unsafe { input.as_ptr().add(used.min(input.len())) }) || rest.is_empty();
                    let arrived = committed + input.len();
                    if arrived < next.end {
                        violation(
                            "partial-definition-accepted",
                            &format!("{} is only part of definition {} and was consumed as {def:?}", ops::show(input), taken.len()),
                        );
                    }
                    if def != next.def {
                        violation("wrong-definition", &format!("definition {} was consumed as {def:?}; sent was {:?}", taken.len(), next.def));
                    }
                    let expect = significant(input, next.end - committed);
                    if !input.ends_with(rest) || !ptr_ok || used != expect {
                        violation(
                            "wrong-remainder",
                            &format!(
                                "after definition {} the remainder is {} ({used} bytes used); it should be {} ({expect} bytes used)",
                                taken.len(),
                                ops::show(rest),
                                ops::show(&input[expect..])
                            ),
                        );
                    }
                    if rest.is_empty() && !(eof && committed + input.len() == bytes.len()) {
                        // ignorable characters may continue: wait for more before committing
                        break;
                    }
                    note(|| format!("t={now} definition {} consumed, offset {}", taken.len(), committed + used));
                    taken.push(next.def.clone());
                    committed += used;
                    buf = rest;
                }
            }
        }
    }
    bump(Stat::SIM_MS, now);
    if have != bytes.len() {
        shm::harness_error("stream was not delivered");
    }
    if taken.len() != sent.len() {
        violation(
            "definition-not-consumed",
            &format!("everything was delivered but only {} of {} definitions were consumed; left: {}", taken.len(), sent.len(), ops::show(&stream[committed..])),
        );
    }
    let expect: Vec<(usize, String)> =
        sent.iter().enumerate().filter_map(|(i, s)| s.payload.clone().map(|p| (i + 1, p))).collect();
    if payloads != expect {
        violation("wrong-remainder", &format!("foreign payloads came out as {payloads:?} instead of {expect:?}"));
    }
    shm::nontrivial();
}

/// Where the definition in this text (from `model::write`) ends: after its last brace outside comments
/// and strings.
fn end_of(t: &str) -> usize {
    let b = t.as_bytes();
    let mut i = 0;
    let mut end = 0;
    while i < b.len() {
        match b[i] {
            b'#' => {
                while i < b.len() && b[i] != b'\n' && b[i] != b'\r' {
                    i += 1;
                }
            }
            b'"' if t[i..].starts_with("\"\"\"") => {
                i += 3;
                loop {
                    if t[i..].starts_with("\\\"\"\"") {
                        i += 4;
                    } else if t[i..].starts_with("\"\"\"") {
                        i += 3;
                        break;
                    } else {
                        i += t[i..].chars().next().unwrap().len_utf8();
                    }
                }
            }
            b'"' => {
                i += 1;
                while b[i] != b'"' {
                    if b[i] == b'\\' {
                        i += 1;
                    }
                    i += 1;
                }
                i += 1;
            }
            c => {
                i += 1;
                if c == b'}' {
                    end = i;
                }
            }
        }
    }
    end
}
