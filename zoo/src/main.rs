#![allow(dead_code, clippy::all)]

#[path = "../../harness/src/core.rs"]
mod core;
#[path = "../../harness/src/oracle.rs"]
mod oracle;
#[path = "../../harness/src/rng.rs"]
mod rng;
#[path = "../../harness/src/runner.rs"]
mod runner;
#[path = "../../harness/src/values.rs"]
mod values;

mod animals;
mod checks;

fn main() -> std::process::ExitCode {
    runner::main(&[("C06", checks::c06), ("C08", checks::c08), ("C09", checks::c09)])
}
