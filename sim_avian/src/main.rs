#![allow(clippy::type_complexity)]
//! Deterministic simulation of rerecast's physics backend: a game with real physics.

#[path = "../../sim/src/cx.rs"]
mod cx;
mod jobs;
mod physics;
mod plan;
#[path = "../../sim/src/rng.rs"]
mod rng;
#[path = "../../sim/src/runner.rs"]
mod runner;
mod shapes;
#[path = "../../sim/src/util.rs"]
mod util;

fn main() {
    util::init();
    std::process::exit(runner::main());
}
