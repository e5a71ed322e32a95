//! Deterministic simulation of FlatCityBuf with fault injection.

mod core;
mod drive;
mod exec;
mod gen;
mod io;
mod layout;
mod net;
mod paths;
mod query;
mod rng;
mod runner;
mod scen;
mod sys;

#[global_allocator]
static ALLOC: core::Meter = core::Meter;

fn main() {
    std::process::exit(runner::main());
}
