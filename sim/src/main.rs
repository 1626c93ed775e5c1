#![allow(clippy::type_complexity)]
//! Deterministic simulation of rerecast's game integration and editor.

mod camsim;
mod canon;
mod codec;
mod cx;
mod disk;
mod editor;
mod game;
mod gamesim;
mod gen_assets;
mod gensim;
mod jobs;
mod net;
mod netsim;
mod oracle;
mod pipeline;
mod plan;
mod rng;
mod runner;
mod threads;
mod util;

fn main() {
    util::init();
    std::process::exit(runner::main());
}
