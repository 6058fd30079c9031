#![allow(static_mut_refs, dead_code, clippy::all, non_upper_case_globals, invalid_runtime_symbol_definitions, suspicious_runtime_symbol_definitions)]
mod choice;
#[allow(dead_code, unused)]
mod cli_main {
    include!(concat!(env!("OUT_DIR"), "/pptcli.rs"));
}
#[macro_use]
mod ctx;
mod driver;
mod gen;
mod pkg;
mod props;
mod report;
mod rt;
mod shim;
mod simfs;
mod simnet;
mod sys;
mod xmlp;
mod zipr;

#[global_allocator]
static ALLOC: shim::Alloc = shim::Alloc;

fn main() {
    let mut a: Vec<String> = std::env::args().collect();
    if a.len() < shim::MAX_ARGS {
        // room for the arguments of simulated processes
        use std::os::unix::process::CommandExt;
        a.resize(shim::MAX_ARGS + 1, "-".into());
        let e = std::process::Command::new(std::env::current_exe().unwrap()).args(&a[1..]).exec();
        eprintln!("exec: {}", e);
        std::process::exit(2);
    }
    a.retain(|x| x != "-");
    let code = match a.get(1).map(|s| s.as_str()) {
        Some("check") => driver::check(&a[2]),
        Some("replay") => driver::replay(&a[2]),
        Some("one") => driver::one(&a[2], a[3].parse().unwrap()),
        Some("determinism") => driver::determinism(&a[2], a.get(3).and_then(|x| x.parse().ok()).unwrap_or(64)),
        Some("list") => {
            for p in props::PROPS {
                println!("{}", p.id);
            }
            0
        }
        _ => {
            eprintln!("usage: sim check PID | replay FILE | one PID INDEX | determinism PID [N] | list");
            2
        }
    };
    std::process::exit(code);
}
