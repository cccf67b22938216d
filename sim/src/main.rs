#![allow(dead_code)]
mod client;
mod gen;
mod hist;
mod m3;
mod model_stub;
mod oracle;
mod plan;
mod refmodel;
mod rng;
mod robot;
mod run;
mod search;
mod sys;
mod wire;
mod world;

fn main() {
    client::install_panic_hook();
    let a: Vec<String> = std::env::args().collect();
    let code = match a.get(1).map(|s| s.as_str()) {
        Some("check") => search::check(&a[2..]),
        Some("replay") => search::replay(&a[2..]),
        Some("run") => search::one(&a[2..]),
        Some("sweep") => search::sweep(&a[2..]),
        Some("determinism") => search::determinism(&a[2..]),
        _ => {
            eprintln!("usage: franka-sim check|replay|run|sweep|determinism ...");
            2
        }
    };
    std::process::exit(code);
}
