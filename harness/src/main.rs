#[macro_use]
mod runner;
mod automation;
mod capture;
mod checks;
mod mix;
mod program;
mod refgraph;
mod rig;
mod util;

use checks::*;
use runner::Runner;

fn main() {
    let id = std::env::args().nth(1).unwrap_or_default();
    let mut r = Runner::new(&id);
    match id.as_str() {
        "C01" => c01::run(&mut r),
        "C02" => c02::run(&mut r),
        "C03" => c03::run(&mut r),
        "C04" => c04::run(&mut r),
        "C27" => c27::run(&mut r),
        "C18" => c18::run(&mut r),
        "C22" => c22::run(&mut r),
        "C23" => c23::run(&mut r),
        "C19" => c19::run(&mut r),
        "C20" => c20::run(&mut r),
        "C21" => c21::run(&mut r),
        "C11" => c11::run(&mut r),
        "C13" => c13::run(&mut r),
        "C12" => c12::run(&mut r),
        "C14" => c14::run(&mut r),
        "C15" => c15::run(&mut r),
        "C16" => c16::run(&mut r),
        "C17" => c17::run(&mut r),
        "C24" => c24::run(&mut r),
        "C25" => c25::run(&mut r),
        "C26" => c26::run(&mut r),
        "C30" => c30::run(&mut r),
        "C05" => c05::run(&mut r),
        "C07" => c07::run(&mut r),
        "C08" => c08::run(&mut r),
        "C28" => c28::run(&mut r),
        "C29" => c29::run(&mut r),
        "C35" => c35::run(&mut r),
        "C32" => c32::run(&mut r),
        "C33" => c33::run(&mut r),
        "C34" => c34::run(&mut r),
        "C36" => c36::run(&mut r),
        "C37" => c37::run(&mut r),
        "C38" => c38::run(&mut r),
        "C41" => c41::run(&mut r),
        "C31" => c31::run(&mut r),
        _ => {
            eprintln!("unknown property {id}");
            std::process::exit(2);
        }
    }
    std::process::exit(r.finish());
}
