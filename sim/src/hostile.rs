//! C10 (damaged documents), C11 (hostile size and nesting under stack, memory and step quotas).
use crate::model;
use crate::ops::{self, Digest, Entry, Env, Op};
use crate::project;
use crate::texts;
use shim::Fl;
use simrt::sched::{self, Body, Slice, Th};
use simrt::shm::{self, Stat};
use simrt::{bump, ctx, note, violation, Src};

const STACK: usize = 2 << 20;

/// Runs one thread with the default stack of a spawned thread.
fn on_default_stack(src: &'static mut Src, f: impl FnOnce(&Th) + Send + 'static) {
    bump(Stat::F_STACK, 1);
    let body: Body = Box::new(move |th| {
        let here = 0u8;
        let base = &here as *const u8 as usize;
        f(th);
        let used = ctx::with(|c| base.saturating_sub(c.sp_min.get().min(base)));
        shm::maximum(Stat::P_MAXSTACK, used as u64);
    });
    let rep = sched::run(vec![body], Slice::Never, STACK, src);
    if rep.deadlock {
        violation("hang", "the call waits in the kernel although it is alone");
    }
}

fn pick_region(src: &mut Src, len: usize, sector: usize) -> (usize, usize) {
    if len == 0 {
        return (0, 0);
    }
    // damage comes in sectors, or hits anything
    let a = src.below(len as u64) as usize / sector * sector;
    let n = (1 + src.below(3) as usize) * sector;
    (a.min(len), (a + n).min(len))
}
const FRAGMENTS: &[&str] = &[
    "\"\"\"", "\"", "\\", "\\u", "\\u12", "\\uD800", "\\uZZZZ", "\\u+041", "1e", "1e+", "1E-", "-", "-0", "0x", "1.", ".5", "1.e5", "00", "9999999999999999999",
    "1e999", "-1e999", "...", "..", "&", "|", "!", "$", "@", ":", "=", "(", ")", "[", "]", "{", "}", "\u{feff}", "\u{3000}", "\u{a0}",
    "\u{2028}", "\0", "\u{7f}", "\r", "\r\n", "#", "# \u{1F600}", "\u{1F600}", "\u{301}", "on", "fragment", "query", "extend", "extend type", "implements",
    "implements &", "repeatable", "directive @a on", "on |", "union U =", "enum E {", "schema {", "input I {", "type T {", "interface I implements",
    "\"\"\"\n a\n\u{3000}b\n\"\"\"", "\"\"\"\n\u{a0}\u{a0}x\n  y\"\"\"", "\"\"\"\u{85}\n é\n  ü\"\"\"", "\"\"\" \\\"\"\" \"\"\"", "\"\"\"\"\"\"", "\"\"\"\"", "\"\n\"", "\"\\\"", "é", "ſ", "İ",
    "\"\"\"\n\t\u{2003}a\n \u{2003}\u{2003}b\"\"\"", "{a(b:\"\\u{1F600}\")}", "{a(b:\"\\ud83d\\ude00\")}", "{a(b:\"\\u00e\u{301}\")}", "{a(b:\"\\é\")}", "\"\\u00\u{e9}\"",
];

fn damage(src: &mut Src, a: &mut Vec<u8>, b: &[u8]) {
    let sector = *src.pick(&[1usize, 1, 2, 4, 8, 16, 64]);
    let len = a.len();
    let (x, y) = pick_region(src, len, sector);
    match src.below(9) {
        0 => {
            bump(Stat::F_FLIP, 1);
            for _ in 0..src.range(1, 4) {
                if len > 0 {
                    let i = src.below(len as u64) as usize;
                    a[i] ^= 1 << src.below(8);
                }
            }
        }
        1 => {
            bump(Stat::F_LOSE, 1);
            a.drain(x..y);
        }
        2 => {
            bump(Stat::F_DUPREG, 1);
            let r = a[x..y].to_vec();
            let at = if src.chance(1, 2) { y } else { src.below(len as u64 + 1) as usize };
            a.splice(at..at, r);
        }
        3 => {
            bump(Stat::F_SWAP, 1);
            let (u, v) = pick_region(src, len, sector);
            let n = (y - x).min(v - u);
            for i in 0..n {
                a.swap(x + i, u + i);
            }
        }
        4 => {
            bump(Stat::F_ZERO, 1);
            a[x..y].iter_mut().for_each(|c| *c = 0);
        }
        5 => {
            bump(Stat::F_STALE, 1);
            for i in x..y {
                if let Some(c) = b.get(i) {
                    a[i] = *c;
                }
            }
        }
        6 => {
            bump(Stat::F_SPLICE, 1);
            let j = src.below(b.len() as u64 + 1) as usize;
            a.truncate(x);
            a.extend_from_slice(&b[j..]);
        }
        _ => {
            bump(Stat::F_TOKEN, 1);
            let f = src.pick(FRAGMENTS).as_bytes();
            if src.chance(1, 2) {
                a.splice(x..x, f.iter().copied());
            } else {
                // in the place of what was there
                let e = (x + f.len()).min(len);
                a.splice(x..e, f.iter().copied());
            }
        }
    }
}
fn stored(src: &mut Src) -> (bool, Vec<u8>) {
    if src.chance(1, 4) {
        let t = texts::draw(src);
        return (t.schema, t.t.into_bytes());
    }
    let m = texts::any_model(src);
    let schema = matches!(m, model::Model::Schema(_));
    let t = if src.chance(1, 2) {
        model::write(src, &m)
    } else {
        let (i, ml) = ops::draw_style(src);
        project::build(&m).format(&ops::style(i, ml))
    };
    (schema, t.into_bytes())
}

const ENTRIES: [Entry; 4] = [Entry::Query, Entry::Schema, Entry::Consume, Entry::Minify];

pub fn c10(src: &'static mut Src) {
    let mut plan: Vec<(String, Vec<Op>)> = Vec::new();
    let n = src.range(1, 5);
    for _ in 0..n {
        let at = src.pos();
        let (schema, mut a) = stored(src);
        let (_, b) = stored(src);
        let k = src.weighted(&[1, 6, 4, 2, 1]);
        for _ in 0..k {
            let at = src.pos();
            damage(src, &mut a, &b);
            src.span(at);
        }
        a.truncate(6000);
        let t = String::from_utf8_lossy(&a).into_owned();
        let mut opsl = Vec::new();
        for e in ENTRIES {
            // the kind the document was stored as always, the others often
            let own = (e == Entry::Schema) == schema;
            if own || src.chance(1, 2) {
                let (indent, multiline) = ops::draw_style(src);
                opsl.push(Op { entry: e, fl: *src.pick(&shim::FLAVOURS), indent, multiline, stages: ops::ALL, node: src.below(40) as u32 });
            }
        }
        if src.chance(1, 10) {
            opsl.push(Op { entry: Entry::Location, fl: Fl::Own, indent: 2, multiline: false, stages: 0, node: 0 });
        }
        plan.push((t, opsl));
        src.span(at);
    }
    shm::nontrivial();
    on_default_stack(src, move |th| {
        for (t, opsl) in plan {
            for op in opsl {
                let what = crate::conc::describe(&op, &t);
                note(|| format!("load damaged document: {what}"));
                let none = Digest::default();
                let mut env = Env::on(&none, th);
                env.cap = 2_000_000 + 20_000 * t.len() as u64;
                let d = ops::perform(&op, &t, &mut env);
                if let Some(p) = d.parts.last() {
                    if p.0.ends_with("panicked") {
                        violation("panic", &format!("{what}: {} with: {}", p.0, p.1));
                    }
                    if d.parts[0].1 == "ok" {
                        bump(Stat::P_OKPARSE, 1);
                    } else {
                        bump(Stat::P_REJECT, 1);
                    }
                }
            }
        }
    });
}

// ----------------------------------------------------------------------------------------- C11

struct Shape {
    name: &'static str,
    schema: bool,
    pre: String,
    unit: String,
    post: String,
}
impl Shape {
    fn text(&self, n: usize) -> String {
        let mut o = String::with_capacity(self.pre.len() + n * self.unit.len() + self.post.len());
        o.push_str(&self.pre);
        for _ in 0..n {
            o.push_str(&self.unit);
        }
        o.push_str(&self.post);
        o
    }
}
const SHAPES: &[(&str, bool, &str, &str, &str)] = &[
    ("fields", false, "{", "a ", "}"),
    ("aliased fields", false, "{", "b:c\n", "}"),
    ("sibling selection sets", false, "{", "a{b{c}}", "}"),
    ("arguments", false, "{a(", "x:1,", ")}"),
    ("arguments on fields", false, "{", "a(x:[1 2 {y:$z}])", "}"),
    ("list items", false, "{a(x:[", "1 ", "])}"),
    ("list items that are lists", false, "{a(x:[", "[] ", "])}"),
    ("object items", false, "{a(x:{", "k:1 ", "})}"),
    ("list of objects", false, "{a(x:[", "{k:{l:1}}", "])}"),
    ("long string", false, "{a(x:\"", "lorem ", "\")}"),
    ("long escaped string", false, "{a(x:\"", "\\u00e9\\n\\\\", "\")}"),
    ("long block string", false, "{a(x:\"\"\"\n", "  line of text\n", "\"\"\")}"),
    ("block string of blank lines", false, "{a(x:\"\"\"", "\n", "\"\"\")}"),
    ("block string of quotes", false, "{a(x:\"\"\"", "\\\"\"\" ", "\"\"\")}"),
    ("block string of one long line", false, "{a(x:\"\"\"", "word ", "\"\"\")}"),
    ("long name", false, "{", "abcdefgh", "}"),
    ("long comment", false, "#", "{ comment \" ", "\n{a}"),
    ("comments", false, "", "# c\n", "{a}"),
    ("commas", false, "{a", ",", "}"),
    ("byte order marks", false, "{a", "\u{feff}", "}"),
    ("long number", false, "{a(x:1.", "123456", ")}"),
    ("long integer", false, "{a(x:", "123456", ")}"),
    ("definitions", false, "", "{a}", ""),
    ("named definitions", false, "", "query Q($v:Int=1){a} ", ""),
    ("fragments", false, "", "fragment F on T{a}\n", ""),
    ("fragment spreads", false, "{", "...F ", "}"),
    ("inline fragments", false, "{", "... on T{a}", "}"),
    ("inline fragments without condition", false, "{", "...@x{a}", "}"),
    ("variables", false, "query(", "$v:[Int!]!=[1] ", "){a}"),
    ("directives", false, "{a ", "@d ", "}"),
    ("directives with arguments", false, "query @q", "@d(x:1)", "{a}"),
    ("unclosed selection", false, "{", "a ", ""),
    ("unclosed string", false, "{a(x:\"", "lorem ", ""),
    ("unclosed block string", false, "{a(x:\"\"\"", "lorem\n", ""),
    ("fields then garbage", false, "{", "a ", "?"),
    ("definitions then garbage", false, "", "{a}", ")"),
    ("closing brackets", false, "{a", "}", ""),
    ("closing parentheses", false, "{a(x:1", ")", "}"),
    ("dots", false, "{", "...", "a}"),
    ("bangs", false, "query($v:Int", "!", "){a}"),
    ("minus signs", false, "{a(x:", "-", "1)}"),
    ("question marks", false, "", "?", ""),
    ("quotes", false, "{a(x:", "\"", ")}"),
    ("strings in a row", false, "{a(x:[", "\"s\"", "])}"),
    ("types", true, "", "type A{a:Int}", ""),
    ("fields of a type", true, "type A{", "f(a:Int=1 b:[S!]!):T @d ", "}"),
    ("described fields", true, "type A{", "\"d\" f:T ", "}"),
    ("block-described fields", true, "type A{", "\"\"\"\n  d\n  e\n\"\"\" f:T\n", "}"),
    ("long description", true, "\"\"\"\n", "  some words\n", "\"\"\" scalar A"),
    ("enum values", true, "enum E{", "V ", "}"),
    ("union members", true, "union U=A", "|B", ""),
    ("interfaces", true, "type A implements B", " & C", "{a:Int}"),
    ("old-style interfaces", true, "type A implements B", " & C", ""),
    ("scalars", true, "", "scalar S ", ""),
    ("extensions", true, "", "extend type A{a:Int} ", ""),
    ("directive definitions", true, "", "directive@a(x:Int)repeatable on FIELD|QUERY ", ""),
    ("directive locations", true, "directive@a on FIELD", "|QUERY", ""),
    ("input fields", true, "input I{", "a:Int=1 ", "}"),
    ("input object defaults", true, "input I{a:J={", "k:[1] ", "}}"),
    ("schema directives", true, "schema", "@d(x:1)", "{query:Q}"),
    ("schema operations", true, "schema{", "query:Q ", "}"),
    ("arguments of a field", true, "type A{f(", "\"x\"a:Int ", "):T}"),
    ("types then garbage", true, "", "type A{a:Int}", "$"),
    ("unclosed type", true, "type A{", "f:T ", ""),
];

const SMALL: usize = 40_000;
const TIMES: u64 = 16;

fn shape(src: &mut Src) -> Shape {
    if src.chance(1, 5) {
        // any document as a unit
        let schema = src.chance(1, 2);
        let m = texts::small_model(src, schema);
        let t = texts::of(src, &m);
        if t.t.len() < 1500 {
            return Shape { name: "documents", schema, pre: String::new(), unit: t.t + "\n", post: String::new() };
        }
    }
    let (name, schema, a, b, c) = *src.pick(SHAPES);
    Shape { name, schema, pre: a.into(), unit: b.into(), post: c.into() }
}

enum Task {
    Grow { a: String, b: String, name: &'static str, op: Op, factor: u64 },
    Reject { text: String, op: Op, depth: u64 },
    Accept { text: String, op: Op, depth: u64 },
    Big { text: String, op: Op, name: &'static str },
    Time { sh: Shape, op: Op },
}

fn quota(len: usize) -> (i64, u64) {
    (1 << 20 | (4096 * len as i64), 2_000_000 + 20_000 * len as u64)
}

pub fn c11(src: &'static mut Src, thorough: bool) {
    let mut tasks = Vec::new();
    let n = src.range(1, 4);
    for _ in 0..n {
        let at = src.pos();
        let task = match src.weighted(&[120, 90, 90, 60, 3]) {
            0 => {
                let sh = shape(src);
                let op = hostile_op(src, sh.schema);
                let k = (src.range(300, 1200) as usize / sh.unit.len()).max(2);
                let factor = if thorough && src.chance(1, 6) { 32 } else { 8 };
                Task::Grow { a: sh.text(k), b: sh.text(k * factor as usize), name: sh.name, op, factor }
            }
            1 => {
                let schema = src.chance(1, 3);
                let depth = match src.below(4) {
                    0 => src.range(60, 120),
                    1 => src.range(120, 2000),
                    2 => src.range(2000, 20_000),
                    _ => src.range(20_000, if thorough { 400_000 } else { 60_000 }),
                };
                let op = hostile_op(src, schema);
                let after = src.chance(1, 3);
                let mut text = if after {
                    let n = many(src);
                    texts::nested_after(src, schema, depth, n)
                } else if schema {
                    texts::nested_schema(src, depth)
                } else {
                    texts::nested(src, depth)
                };
                if !after && src.chance(1, 4) {
                    // never closed, as an attacker would send it
                    let cut = text.find(['}', ')', ']']).unwrap_or(text.len());
                    text.truncate(cut);
                }
                if !after && src.chance(1, 3) {
                    // something legal before it
                    let pre = if schema { "type Ok { a: [Int!]! } " } else { "query Ok($a: [Int!]) { a(b: [1, {c: 2}]) { d } } " };
                    text.insert_str(0, pre);
                }
                Task::Reject { text, op, depth }
            }
            2 => {
                let schema = src.chance(1, 3);
                let depth = src.range(2, 40);
                let op = hostile_op(src, schema);
                if depth >= 4 && src.chance(1, 3) {
                    let n = many(src);
                    let text = texts::nested_after(src, schema, depth, n);
                    tasks.push(Task::Accept { text, op, depth });
                    src.span(at);
                    continue;
                }
                let times = 1 + src.scale(if thorough { 11 } else { 8 });
                let mut text = String::new();
                for _ in 0..times.min(1 + 40_000 / depth) {
                    let one = if schema { texts::nested_schema(src, depth) } else { texts::nested(src, depth) };
                    text.push_str(&one);
                    text.push('\n');
                }
                Task::Accept { text, op, depth }
            }
            4 => {
                let sh = shape(src);
                let op = hostile_op(src, sh.schema);
                Task::Time { sh, op }
            }
            _ => {
                let sh = shape(src);
                let op = hostile_op(src, sh.schema);
                let size = if src.chance(1, if thorough { 4 } else { 20 }) { 200_000 } else { 20_000 };
                let k = src.below(size) as usize / sh.unit.len() + 1;
                Task::Big { text: sh.text(k), op, name: sh.name }
            }
        };
        tasks.push(task);
        src.span(at);
    }
    shm::nontrivial();
    on_default_stack(src, move |th| {
        for t in tasks {
            match t {
                Task::Grow { a, b, name, op, factor } => {
                    note(|| format!("growth: {name}, {} and {} bytes: {}", a.len(), b.len(), crate::conc::describe(&op, &a)));
                    let x = run(th, &op, &a, name);
                    let y = run(th, &op, &b, name);
                    for (r, s) in x.recs.iter().zip(&y.recs) {
                        if r.what != s.what {
                            break;
                        }
                        // twice as much as in proportion, plus a constant
                        if s.steps > r.steps * factor * 3 / 2 + 200_000 {
                            violation(
                                "superlinear-steps",
                                &format!(
                                    "{name} ({}): {} takes {} steps for {} bytes and {} steps for {} bytes",
                                    crate::conc::describe(&op, &a),
                                    r.what,
                                    r.steps,
                                    a.len(),
                                    s.steps,
                                    b.len()
                                ),
                            );
                        }
                        if s.peak > r.peak * factor as i64 * 5 / 2 + 65_536 {
                            violation(
                                "superlinear-memory",
                                &format!(
                                    "{name} ({}): {} needs {} bytes of memory for {} bytes of input and {} for {}",
                                    crate::conc::describe(&op, &a),
                                    r.what,
                                    r.peak,
                                    a.len(),
                                    s.peak,
                                    b.len()
                                ),
                            );
                        }
                    }
                }
                Task::Time { sh, op } => {
                    // work that happens inside the standard library takes no steps, but time
                    let k = SMALL / sh.unit.len();
                    let (a, b) = (sh.text(k), sh.text(k * TIMES as usize));
                    note(|| format!("time: {}, {} and {} bytes: {}", sh.name, a.len(), b.len(), crate::conc::describe(&op, &a)));
                    let mut x = run(th, &op, &a, sh.name);
                    if x.steps() > 40_000_000 {
                        continue;
                    }
                    let mut y = run(th, &op, &b, sh.name);
                    bump(Stat::P_TIMED, 1);
                    for again in 0..4 {
                        let slow = x.recs.iter().zip(&y.recs).find(|(r, s)| r.what == s.what && s.cpu > r.cpu * TIMES * 5 / 2 + 400_000_000);
                        let Some((r, s)) = slow else { break };
                        if again == 3 {
                            violation(
                                "superlinear-time",
                                &format!(
                                    "{} ({}): {} takes {} ms for {} bytes and {} ms for {} bytes (the least of 4 tries each)",
                                    sh.name,
                                    crate::conc::describe(&op, &a),
                                    r.what,
                                    r.cpu / 1_000_000,
                                    a.len(),
                                    s.cpu / 1_000_000,
                                    b.len()
                                ),
                            );
                        }
                        for (d, t) in [(&mut x, &a), (&mut y, &b)] {
                            let e = run(th, &op, t, sh.name);
                            d.recs.iter_mut().zip(&e.recs).for_each(|(r, s)| r.cpu = r.cpu.min(s.cpu));
                        }
                    }
                }
                Task::Big { text, op, name } => {
                    note(|| format!("size: {name}, {} bytes: {}", text.len(), crate::conc::describe(&op, &text)));
                    run(th, &op, &text, name);
                }
                Task::Reject { text, op, depth } => {
                    note(|| format!("nesting {depth}: {}", crate::conc::describe(&op, &text)));
                    let d = run(th, &op, &text, "nesting");
                    let rejected = d.parts.iter().any(|p| p.0 == "error" || p.0 == "minify error");
                    // (consuming one definition may stop before the nested one)
                    if !rejected && !(op.entry == Entry::Consume && text.contains("Ok")) {
                        violation("nesting-accepted", &format!("nesting {depth} was accepted by {}", crate::conc::describe(&op, &text)));
                    }
                    if rejected {
                        bump(Stat::P_RECLIMIT, 1);
                    }
                }
                Task::Accept { text, op, depth } => {
                    note(|| format!("legal nesting {depth}, {} bytes: {}", text.len(), crate::conc::describe(&op, &text)));
                    let d = run(th, &op, &text, "legal nesting");
                    if let Some(p) = d.parts.iter().find(|p| p.0 == "error" || p.0 == "minify error") {
                        violation(
                            "legal-nesting-rejected",
                            &format!("a document of {} bytes that nests {depth} deep was rejected by {}: {}", text.len(), crate::conc::describe(&op, &text), p.1),
                        );
                    }
                    bump(Stat::P_NESTOK, 1);
                }
            }
        }
    });
}
/// How many units precede a nested one.
fn many(src: &mut Src) -> u64 {
    match src.weighted(&[6, 6, 2]) {
        0 => src.range(1, 100),
        1 => src.range(100, 2000),
        _ => src.range(2000, 10_000),
    }
}
fn hostile_op(src: &mut Src, schema: bool) -> Op {
    let entry = if schema {
        *src.pick(&[Entry::Schema, Entry::Schema, Entry::Minify])
    } else {
        *src.pick(&[Entry::Query, Entry::Query, Entry::Consume, Entry::Minify])
    };
    Op {
        entry,
        // (the counting text type would count the simulator's own work)
        fl: *src.pick(&[Fl::Own, Fl::Str, Fl::Cow]),
        indent: 2,
        multiline: src.chance(1, 3),
        stages: *src.pick(&[0, ops::DISPLAY, ops::FORMAT, ops::CLONE, ops::VALUES, ops::DISPLAY | ops::CLONE]),
        node: 0,
    }
}
fn run(th: &Th, op: &Op, text: &str, name: &str) -> Digest {
    let (mem, steps) = quota(text.len());
    bump(Stat::F_MEMQ, 1);
    bump(Stat::F_STEPQ, 1);
    let none = Digest::default();
    let mut env = Env::on(&none, th);
    env.cap = steps;
    env.quota = mem;
    let d = ops::perform(op, text, &mut env);
    let what = || format!("{name}: {}", crate::conc::describe(op, text));
    if env.quota_hit {
        violation("memory-quota", &format!("{}: more than {mem} bytes of memory for {} bytes of input", what(), text.len()));
    }
    if let Some(p) = d.parts.last() {
        if p.0.ends_with("panicked") {
            violation("panic", &format!("{}: {} with: {}", what(), p.0, p.1));
        }
    }
    if text.len() > 500 {
        for r in &d.recs {
            shm::maximum(Stat::P_MAXSPB, r.steps / text.len() as u64);
            shm::maximum(Stat::P_MAXMPB, r.peak.max(0) as u64 / text.len() as u64);
        }
    }
    d
}
