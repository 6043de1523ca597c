//! A caller-supplied text type. Each callback is a scheduling point and can panic or re-enter the
//! library; every value is entered in a ledger on construction and must leave it exactly once.
use crate::ctx;
use crate::shm::{self, Stat};
use std::borrow::Borrow;
use std::cmp::Ordering as Ord_;
use std::fmt;
use std::sync::atomic::{AtomicU32, AtomicU8, Ordering};

pub const LEDGER: usize = 1 << 20;
static STATE: [AtomicU8; LEDGER] = [const { AtomicU8::new(0) }; LEDGER];
static NEXT: AtomicU32 = AtomicU32::new(0);

pub fn created() -> u32 {
    NEXT.load(Ordering::Relaxed)
}
/// Ids below `upto` and at or above `from` that are alive.
pub fn alive(from: u32, upto: u32) -> u32 {
    (from..upto).filter(|i| STATE[*i as usize].load(Ordering::Relaxed) == 1).count() as u32
}

pub struct SimStr {
    id: u32,
    s: String,
}
#[derive(Debug, Clone, PartialEq)]
pub struct SimText;

impl<'a> graphql_parser::query::Text<'a> for SimText {
    type Value = SimStr;
}

fn cb() {
    ctx::point();
    let (panic_id, reenter) = ctx::with(|c| {
        if !c.active.get() {
            return (None, None);
        }
        let n = c.cbs.get();
        c.cbs.set(n + 1);
        if n == c.panic_at.get() {
            c.panic_fired.set(true);
            shm::bump(Stat::F_PANIC, 1);
            (Some(c.panic_id.get()), None)
        } else if n == c.reenter_at.get() {
            (None, c.reenter.get())
        } else {
            (None, None)
        }
    });
    if let Some(id) = panic_id {
        ctx::caller_panic(id);
    }
    if let Some(f) = reenter {
        shm::bump(Stat::F_REENTER, 1);
        ctx::leave(f);
    }
}

fn new(s: String) -> SimStr {
    let id = NEXT.fetch_add(1, Ordering::Relaxed);
    if id as usize >= LEDGER {
        shm::harness_error("text ledger full");
    }
    STATE[id as usize].store(1, Ordering::Relaxed);
    SimStr { id, s }
}

impl SimStr {
    pub fn get(&self) -> &str {
        if STATE[self.id as usize % LEDGER].load(Ordering::Relaxed) != 1 {
            shm::violation("text-used-after-drop", &format!("text value #{} used after it was dropped", self.id));
        }
        &self.s
    }
}
impl Drop for SimStr {
    fn drop(&mut self) {
        let st = if (self.id as usize) < LEDGER {
            STATE[self.id as usize].swap(2, Ordering::Relaxed)
        } else {
            9
        };
        if st != 1 {
            shm::violation(
                "text-dropped-twice",
                &format!("text value #{} dropped in ledger state {} (1 = alive, 2 = already dropped)", self.id, st),
            );
        }
    }
}
impl From<&str> for SimStr {
    fn from(s: &str) -> SimStr {
        cb();
        let v = new(s.to_string());
        cb();
        v
    }
}
impl AsRef<str> for SimStr {
    fn as_ref(&self) -> &str {
        cb();
        self.get()
    }
}
impl Borrow<str> for SimStr {
    fn borrow(&self) -> &str {
        cb();
        self.get()
    }
}
impl PartialEq for SimStr {
    fn eq(&self, o: &SimStr) -> bool {
        cb();
        self.get() == o.get()
    }
}
impl Eq for SimStr {}
impl PartialOrd for SimStr {
    fn partial_cmp(&self, o: &SimStr) -> Option<Ord_> {
        Some(self.cmp(o))
    }
}
impl Ord for SimStr {
    fn cmp(&self, o: &SimStr) -> Ord_ {
        cb();
        self.get().cmp(o.get())
    }
}
impl fmt::Debug for SimStr {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        cb();
        fmt::Debug::fmt(self.get(), f)
    }
}
impl Clone for SimStr {
    fn clone(&self) -> SimStr {
        cb();
        let v = new(self.get().to_string());
        cb();
        v
    }
}
