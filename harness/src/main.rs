//! Runs cases against the library's public API and records what it answers.
//!
//! usage: harness CASES.ndjson RECORDS.ndjson PROGRESS
//!
//! Nothing is judged here: a record is the case plus the observations, and the
//! TLA+ specification decides whether they are allowed.
#[macro_use]
mod json;
mod drive;
mod run;
mod sym;

#[global_allocator]
static HEAP: sym::Bytes = sym::Bytes;

fn main() {
    drive::drive(run::case);
}
