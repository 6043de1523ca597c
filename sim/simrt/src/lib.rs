//! Simulation run-time: owns every source of nondeterminism and every fault the library can meet.
//!
//! * `shm`   - memory shared with the parent process (choice tape, result, counters, coverage)
//! * `src`   - the one source of choices (seeded generator recorded to a tape, or a replayed tape)
//! * `ctx`   - per-thread context: scheduling points, allocation faults, quotas, stack mark
//! * `sched` - decides which caller thread executes at every scheduling point
//! * `seam`  - memory placement, random numbers and clocks
//! * `text`  - a caller-supplied text type whose callbacks can panic, yield or re-enter
#![feature(alloc_error_hook)]
pub mod ctx;
pub mod sched;
pub mod seam;
pub mod shm;
pub mod src;
pub mod text;

pub use ctx::{enter, leave, Outcome};
pub use shm::{bump, note, stat, violation};
pub use src::Src;
