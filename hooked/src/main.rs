//! Checks that need the crate built with `--cfg verif_hooks`
#![allow(dead_code)]
#[macro_use]
#[path = "../../harness/src/runner.rs"]
mod runner;
#[path = "../../harness/src/program.rs"]
mod program;
#[path = "../../harness/src/util.rs"]
mod util;

mod c06;
mod c09;
mod c10;
mod c39;
mod c40;
mod live;

use runner::Runner;

fn main() {
    let id = std::env::args().nth(1).unwrap_or_default();
    let mut r = Runner::new(&id);
    match id.as_str() {
        "C06" => c06::run(&mut r),
        "C39" => c39::run(&mut r),
        "C40" => c40::run(&mut r),
        "C10" => c10::run(&mut r),
        "C09" => c09::run(&mut r),
        _ => {
            eprintln!("unknown property {id}");
            std::process::exit(2);
        }
    }
    std::process::exit(r.finish());
}
