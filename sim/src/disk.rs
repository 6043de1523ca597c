//! C08 (acknowledged saves survive crashes), C09 (torn documents) and the disk under them.
use crate::model::{self, Gen, Model, QDef, SDef};
use crate::ops;
use crate::project;
use crate::texts;
use shim::Doc;
use simrt::ctx::{self, Outcome};
use simrt::sched;
use simrt::shm::{self, Stat};
use simrt::{bump, note, violation, Src};
use std::collections::BTreeMap;
use std::io;

/// What a call may execute: far more than the documents made here need.
const CAP: u64 = 2_000_000_000;
pub fn lib<T>(what: &str, f: impl FnOnce() -> T) -> T {
    sched::solo(CAP, false);
    ctx::reset_op();
    let r = simrt::enter(f);
    let n = sched::solo_steps();
    sched::solo_end();
    shm::trace(n);
    match r {
        Outcome::Done(x) => x,
        Outcome::Panic(m) => violation("panic", &format!("{what} panicked: {m}")),
        _ => shm::harness_error("fault without cause"),
    }
}

/// A file: what is safely stored, and what the page cache holds on top of it.
#[derive(Clone, Default)]
struct File {
    durable: Vec<u8>,
    cached: Vec<u8>,
}
/// A disk with a page cache, one directory and a capacity.
#[derive(Default)]
struct Disk {
    files: BTreeMap<u32, File>,
    dir: BTreeMap<String, u32>,         // as seen by the process
    durable_dir: BTreeMap<String, u32>, // as stored
    next: u32,
    capacity: usize,
    bytes: usize,
    now: u64,
}
impl Disk {
    fn create(&mut self, name: &str) {
        self.next += 1;
        self.files.insert(self.next, File::default());
        self.dir.insert(name.into(), self.next);
        // files no name leads to are gone
        let used: Vec<u32> = self.dir.values().chain(self.durable_dir.values()).copied().collect();
        self.files.retain(|k, _| used.contains(k));
        self.bytes = self.files.values().map(|f| f.cached.len()).sum();
    }
    fn file(&mut self, name: &str) -> &mut File {
        let id = self.dir[name];
        self.files.get_mut(&id).unwrap()
    }
    fn append(&mut self, name: &str, b: &[u8]) -> Result<(), ()> {
        self.now += 1 + b.len() as u64 / 4096;
        if self.bytes + b.len() > self.capacity {
            bump(Stat::F_ENOSPC, 1);
            return Err(());
        }
        self.bytes += b.len();
        self.file(name).cached.extend_from_slice(b);
        Ok(())
    }
    fn truncate(&mut self, name: &str, n: usize) {
        self.file(name).cached.truncate(n);
    }
    fn fsync(&mut self, src: &mut Src, name: &str, faults: bool) -> Result<(), ()> {
        self.now += 5;
        if faults && src.chance(1, 25) {
            bump(Stat::F_LOSTSYNC, 1);
            note(|| "  fsync fails".into());
            return Err(());
        }
        let f = self.file(name);
        f.durable = f.cached.clone();
        Ok(())
    }
    fn rename(&mut self, a: &str, b: &str) {
        self.now += 1;
        let id = self.dir.remove(a).unwrap();
        self.dir.insert(b.into(), id);
    }
    fn sync_dir(&mut self) {
        self.now += 5;
        self.durable_dir = self.dir.clone();
    }
    fn read(&self, name: &str) -> Option<Vec<u8>> {
        self.dir.get(name).map(|i| self.files[i].cached.clone())
    }
    /// Power is lost: unsynced data survives in part, torn, or as zeros.
    fn crash(&mut self, src: &mut Src) {
        bump(Stat::F_CRASH, 1);
        self.now += 1000;
        // renames not synced happened or not
        if self.dir != self.durable_dir {
            if src.chance(1, 2) {
                self.dir = self.durable_dir.clone();
            } else {
                self.durable_dir = self.dir.clone();
            }
        }
        for f in self.files.values_mut() {
            if f.cached == f.durable {
                continue;
            }
            let common = f.cached.iter().zip(&f.durable).take_while(|(a, b)| a == b).count();
            if f.cached.len() < f.durable.len() {
                // a truncation: it happened or not
                if src.chance(1, 2) {
                    f.cached = f.durable.clone();
                }
            } else {
                let pending = f.cached.len() - common;
                match src.below(4) {
                    0 => {
                        bump(Stat::F_LOSTSYNC, 1);
                        f.cached.truncate(common);
                    }
                    1 => {
                        bump(Stat::F_TORN, 1);
                        let k = common + src.below(pending as u64 + 1) as usize;
                        f.cached.truncate(k);
                    }
                    2 => {
                        // the length was stored, part of the data was not
                        bump(Stat::F_ZEROTAIL, 1);
                        let k = common + src.below(pending as u64 + 1) as usize;
                        f.cached[k..].iter_mut().for_each(|b| *b = 0);
                    }
                    _ => {}
                }
            }
            f.durable = f.cached.clone();
        }
        self.bytes = self.files.values().map(|f| f.cached.len()).sum();
    }
}

/// `io::Write` into a file of the simulated disk.
struct Writer<'d> {
    disk: &'d mut Disk,
    name: &'d str,
    x: u64,
    short: u64,
    /// power fails when so many bytes have been written
    power: Option<usize>,
    dead: bool,
}
impl io::Write for Writer<'_> {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        simrt::leave(|| {
            if self.dead {
                return Err(io::Error::from(io::ErrorKind::Other));
            }
            let mut n = b.len();
            self.x = simrt::src::mix(self.x, 5);
            if self.short > 0 && n > 1 && self.x % self.short == 0 {
                n = 1 + (self.x >> 8) as usize % (n - 1);
                bump(Stat::F_SINK_SHORT, 1);
            }
            if self.short > 0 && (self.x >> 40) % (self.short * 3) == 0 {
                bump(Stat::F_SINK_EINTR, 1);
                return Err(io::Error::from(io::ErrorKind::Interrupted));
            }
            if let Some(p) = self.power {
                if n >= p {
                    let _ = self.disk.append(self.name, &b[..p]);
                    self.dead = true;
                    return Err(io::Error::from(io::ErrorKind::Other));
                }
                self.power = Some(p - n);
            }
            match self.disk.append(self.name, &b[..n]) {
                Ok(()) => Ok(n),
                Err(()) => Err(io::Error::from(io::ErrorKind::StorageFull)),
            }
        })
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

enum Wrote {
    All,
    Failed,
    Crashed,
}
/// Renders a document onto the disk under a style, either through the writer or as one text.
fn render(src: &mut Src, disk: &mut Disk, name: &str, doc: &Doc, style: Option<(u32, bool)>, faults: bool) -> Wrote {
    let power = if faults && src.chance(1, 8) { Some(src.scale(11) as usize) } else { None };
    let short = if faults && src.chance(1, 2) { src.range(2, 6) } else { 0 };
    let mut w = Writer { disk, name, x: src.bits(), short, power, dead: false };
    let ok = match style {
        None => lib("Display", || shim::io_write_node(doc.nodes()[0].1, &mut w, 0)).is_ok(),
        Some((i, m)) => {
            let t = lib("format", || doc.format(&ops::style(i, m)));
            note(|| format!("  text: {t:?}"));
            io::Write::write_all(&mut w, t.as_bytes()).is_ok()
        }
    };
    if w.dead {
        Wrote::Crashed
    } else if ok {
        Wrote::All
    } else {
        Wrote::Failed
    }
}

fn load(fl: shim::Fl, schema: bool, b: &[u8]) -> Result<Model, String> {
    let t = std::str::from_utf8(b).map_err(|e| e.to_string())?;
    let r = lib("parse", || if schema { shim::parse_schema(fl, t) } else { shim::parse_query(fl, t) });
    match r {
        Ok(d) => Ok(project::model(&d)),
        Err(e) => Err(e.display()),
    }
}
fn explain(a: &Model, b: &Model) -> String {
    let (x, y) = (format!("{a:?}"), format!("{b:?}"));
    let at = x.bytes().zip(y.bytes()).position(|(a, b)| a != b).unwrap_or(x.len().min(y.len()));
    let cut = |s: &str| {
        let mut from = at.saturating_sub(60);
        while !s.is_char_boundary(from) {
            from -= 1;
        }
        s[from..].chars().take(160).collect::<String>()
    };
    format!("...{}... instead of ...{}...", cut(&x), cut(&y))
}

/// Whether a document read back is the one written, apart from the known finding.
fn same(got: &Model, want: &Model) -> bool {
    if got == want {
        return true;
    }
    if *got == model::loosen(want) {
        shm::finding("float-read-as-int", &format!("whole floats read back as integers: {}", explain(got, want)));
        return true;
    }
    false
}

pub fn c08(src: &'static mut Src) {
    if src.chance(2, 5) {
        journal(src)
    } else {
        replace(src)
    }
}

/// Whole documents, replaced atomically.
fn replace(src: &mut Src) {
    let mut disk = Disk { capacity: if src.chance(1, 6) { 200 + src.scale(12) as usize } else { usize::MAX }, ..Disk::default() };
    let faults = src.chance(3, 4);
    let schema = src.chance(1, 2);
    let mut acked: Option<Model> = None;
    let mut maybe: Vec<Model> = Vec::new(); // saves under way since the last acknowledged one
    let mut ever = 0;
    let n = src.range(1, 6);
    for k in 0..n {
        let at = src.pos();
        let m = model::any(src, schema);
        // the document is built by hand, or parsed from somebody else's text
        let parsed = src.chance(1, 3);
        let text: &'static str = if parsed { String::leak(model::write(src, &m)) } else { "" };
        let doc = if parsed {
            let r = lib("parse", || if schema { shim::parse_schema(shim::Fl::Own, text) } else { shim::parse_query(shim::Fl::Own, text) });
            match r {
                // (a parser that misreads a hand-written text is another property's business:
                // what counts here is the document in memory)
                Ok(d) => d,
                Err(_) => project::build(&m),
            }
        } else {
            project::build(&m)
        };
        let m = project::model(&doc);
        let style = if src.chance(1, 4) { None } else { Some(ops::draw_style(src)) };
        note(|| format!("save {k}: {m:?} with style {style:?}"));
        disk.create("doc.tmp");
        let w = render(src, &mut disk, "doc.tmp", &doc, style, faults);
        let mut crashed = matches!(w, Wrote::Crashed);
        if let Wrote::All = w {
            if disk.fsync(src, "doc.tmp", faults).is_ok() {
                disk.rename("doc.tmp", "doc");
                maybe.push(m.clone());
                if faults && src.chance(1, 10) {
                    crashed = true;
                } else {
                    disk.sync_dir();
                    acked = Some(m.clone());
                    maybe.clear();
                    ever += 1;
                    note(|| format!("save {k} acknowledged"));
                }
            }
        }
        if crashed || (faults && src.chance(1, 4)) {
            note(|| "  power fails".into());
            disk.crash(src);
        }
        if let Some(b) = disk.read("doc") {
            // read it back, as after a restart
            match load(*src.pick(&[shim::Fl::Str, shim::Fl::Own, shim::Fl::Cow]), schema, &b) {
                Err(e) => violation(
                    "saved-document-unreadable",
                    &format!("the stored document {} does not parse: {e}", ops::show(&String::from_utf8_lossy(&b))),
                ),
                Ok(got) => {
                    let fine = acked.as_ref().map_or(false, |a| *a == got) || maybe.contains(&got)
                        || acked.iter().chain(&maybe).any(|m| same(&got, m));
                    if !fine {
                        let want = maybe.last().or(acked.as_ref()).unwrap();
                        violation(
                            "saved-document-changed",
                            &format!("the stored document {} reads back differently: {}", ops::show(&String::from_utf8_lossy(&b)), explain(&got, want)),
                        );
                    }
                    if acked.as_ref() != Some(&got) {
                        // it survived: it is the stored one from now on
                        acked = Some(got);
                    }
                    disk.sync_dir();
                    maybe.clear();
                    bump(Stat::P_RECOVER, 1);
                    if b.windows(3).any(|w| w == b"\"\"\"") {
                        bump(Stat::P_MULTILINE, 1);
                    }
                }
            }
        } else if acked.is_some() {
            shm::harness_error("the simulated disk lost a synced file");
        }
        src.span(at);
    }
    bump(Stat::SIM_MS, disk.now);
    if ever > 0 {
        shm::nontrivial();
    }
}

/// Executable definitions appended to a log that is recovered with consume_definition.
fn journal(src: &mut Src) {
    let mut disk = Disk { capacity: usize::MAX, ..Disk::default() };
    let faults = src.chance(4, 5);
    let z = model::size(src);
    disk.create("log");
    disk.sync_dir();
    let mut acked: Vec<QDef> = Vec::new();
    let mut pending: Vec<QDef> = Vec::new(); // appended, not acknowledged
    let n = src.range(1, 10);
    for k in 0..n {
        let at = src.pos();
        let def = Gen { s: src, z }.qdef();
        let style = if src.chance(1, 4) { None } else { Some(ops::draw_style(src)) };
        let doc = project::build(&Model::Query(vec![def.clone()]));
        note(|| format!("append {k}: {def:?} with style {style:?}"));
        let w = render(src, &mut disk, "log", &doc, style, faults);
        pending.push(def);
        let mut crash = false;
        match w {
            Wrote::Crashed => crash = true,
            Wrote::All => {
                // definitions are acknowledged in groups
                if src.chance(2, 3) {
                    if disk.fsync(src, "log", faults).is_ok() {
                        acked.append(&mut pending);
                        note(|| format!("{} definitions acknowledged", acked.len()));
                    } else {
                        crash = true; // a failed fsync leaves the cache unknown: restart
                    }
                }
            }
            Wrote::Failed => crash = true,
        }
        if crash || (faults && src.chance(1, 5)) {
            note(|| "  power fails".into());
            disk.crash(src);
        } else if !src.chance(1, 3) && k + 1 < n {
            src.span(at);
            continue;
        }
        // recovery
        let b = disk.read("log").unwrap();
        let valid = match std::str::from_utf8(&b) {
            Ok(s) => s,
            Err(e) => std::str::from_utf8(&b[..e.valid_up_to()]).unwrap(),
        };
        let fl = *src.pick(&[shim::Fl::Str, shim::Fl::Own, shim::Fl::Cow]);
        let mut rest = valid;
        let mut got: Vec<QDef> = Vec::new();
        let mut good = 0;
        while !rest.is_empty() {
            match lib("consume_definition", || shim::consume(fl, rest)) {
                Ok((d, r)) => {
                    if let Model::Query(mut v) = project::model(&d) {
                        got.append(&mut v);
                    }
                    if r.len() >= rest.len() {
                        violation("no-progress", "consume_definition consumed nothing");
                    }
                    good += rest.len() - r.len();
                    rest = r;
                }
                Err(e) => {
                    note(|| format!("  recovery stops: {}", e.display()));
                    break;
                }
            }
        }
        bump(Stat::P_RECOVER, 1);
        let all: Vec<QDef> = acked.iter().chain(&pending).cloned().collect();
        if got.len() < acked.len() || got.len() > all.len() || !same(&Model::Query(got.clone()), &Model::Query(all[..got.len()].to_vec())) {
            violation(
                "log-not-recovered",
                &format!(
                    "{} definitions were acknowledged, {} more written; from {} were recovered {} definitions: {}",
                    acked.len(),
                    pending.len(),
                    ops::show(&String::from_utf8_lossy(&b)),
                    got.len(),
                    explain(&Model::Query(got.clone()), &Model::Query(all[..got.len().clamp(acked.len(), all.len())].to_vec()))
                ),
            );
        }
        if got.len() > acked.len() {
            bump(Stat::P_FULLREC, 1);
        }
        // go on after the last whole definition
        disk.truncate("log", good);
        if disk.fsync(src, "log", false).is_err() {
            shm::harness_error("fsync");
        }
        acked = got;
        pending.clear();
        src.span(at);
    }
    bump(Stat::SIM_MS, disk.now);
    if !acked.is_empty() {
        shm::nontrivial();
    }
}

// ----------------------------------------------------------------------------------------- C09

/// One definition in the library's own canonical text (used only to compare texts by prefix).
fn canonical(d: &SDef) -> String {
    let doc = project::build(&Model::Schema(vec![d.clone()]));
    lib("Display", || doc.display()).trim_end().to_string()
}

pub fn c09(src: &'static mut Src) {
    let m = texts::any_model(src);
    let schema = matches!(m, Model::Schema(_));
    // what was written: a legal layout of somebody else's, or the library's own under some style
    let (text, whole) = if src.chance(1, 2) {
        (model::write(src, &m), m)
    } else {
        let (i, ml) = ops::draw_style(src);
        let doc = project::build(&m);
        // (that whole floats lose their fraction is a finding about C08)
        (lib("format", || doc.format(&ops::style(i, ml))), model::loosen(&m))
    };
    note(|| format!("written: {text:?}"));
    let b = text.as_bytes();
    let mut cuts = src.range(1, 24);
    if b.len() < 120 && src.chance(1, 2) {
        cuts = b.len() as u64;
    }
    let every = cuts == b.len() as u64;
    for i in 0..cuts {
        let at = src.pos();
        let k = if every { i as usize } else { src.below(b.len() as u64 + 1) as usize };
        let mut torn = b[..k].to_vec();
        let zero = src.chance(1, 6);
        if zero {
            bump(Stat::F_ZEROTAIL, 1);
            torn.resize(b.len(), 0);
        } else {
            bump(Stat::F_TORN, 1);
        }
        // a reader either insists on whole characters or drops the torn one
        let s = match std::str::from_utf8(&torn) {
            Ok(s) => s,
            Err(e) => {
                let up = e.valid_up_to();
                torn.truncate(up);
                std::str::from_utf8(&torn).unwrap()
            }
        };
        shm::nontrivial();
        note(|| format!("torn at byte {k}{}", if zero { ", zeros after" } else { "" }));
        let got = match load(*src.pick(&[shim::Fl::Str, shim::Fl::Own, shim::Fl::Cow]), schema, s.as_bytes()) {
            Err(_) => {
                bump(Stat::P_REJECT, 1);
                src.span(at);
                continue;
            }
            Ok(g) => g,
        };
        bump(Stat::P_OKPARSE, 1);
        let bad = |why: String| -> ! {
            violation("torn-document-misread", &format!("{} torn at byte {k}{} reads as {}: {why}", ops::show(&text), if zero { " (zeros after)" } else { "" }, ops::show(s)))
        };
        match (&got, &whole) {
            (Model::Query(g), Model::Query(w)) => {
                if g.len() > w.len() || g[..] != w[..g.len()] {
                    bad(explain(&got, &Model::Query(w[..g.len().min(w.len())].to_vec())));
                }
            }
            (Model::Schema(g), Model::Schema(w)) => {
                let n = g.len();
                if n > w.len() {
                    bad("more definitions than were written".into());
                }
                if n > 0 {
                    if g[..n - 1] != w[..n - 1] {
                        bad(explain(&Model::Schema(g[..n - 1].to_vec()), &Model::Schema(w[..n - 1].to_vec())));
                    }
                    if g[n - 1] != w[n - 1] {
                        let (a, c) = (canonical(&g[n - 1]), canonical(&w[n - 1]));
                        if !c.starts_with(&a) {
                            bad(format!("its last definition {} is not a beginning of {}", ops::show(&a), ops::show(&c)));
                        }
                    }
                }
            }
            _ => shm::harness_error("kind"),
        }
        src.span(at);
    }
}
