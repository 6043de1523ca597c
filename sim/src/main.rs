//! Deterministic simulation of graphql-parser with fault injection. See /verif/DESIGN.md.
mod conc;
mod disk;
mod faults;
mod hostile;
mod model;
mod net;
mod ops;
mod project;
mod runner;
mod texts;

#[global_allocator]
static ALLOC: simrt::ctx::SimAlloc = simrt::ctx::SimAlloc;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let code = match args.get(1).map(|s| s.as_str()) {
        Some("check") => runner::check(&args[2..]),
        Some("replay") => runner::replay(&args[2..]),
        Some("selftest") => runner::selftest(&args[2..]),
        Some("one") => runner::one(&args[2..]),
        _ => {
            eprintln!("gqsim check ID | replay FILE | selftest [N [ID [ROOT]]] | one ID INDEX");
            2
        }
    };
    std::process::exit(code);
}
