//! Deterministic simulation of bsn1 and bsn1_serde. See /verif/DESIGN.md.

#[macro_use]
mod world;
mod alloc;
mod cb;
mod edit;
mod io;
mod jobs;
mod model;
mod ops;
mod props;
mod rng;
mod run;
mod sched;
mod sup;
mod types;
mod x86;

#[global_allocator]
static ALLOC: alloc::SimAlloc = alloc::SimAlloc;

/// Addresses are part of the environment: keep them the same in every process.
fn fix_addresses() {
    const NO_RANDOMIZE: libc::c_ulong = 0x0040000;
    unsafe {
        let cur = libc::personality(0xffff_ffff);
        if cur < 0 || cur as libc::c_ulong & NO_RANDOMIZE != 0 {
            return;
        }
        if libc::personality(cur as libc::c_ulong | NO_RANDOMIZE) < 0 {
            return;
        }
    }
    use std::os::unix::process::CommandExt;
    if let Ok(exe) = std::env::current_exe() {
        if std::env::var("BSN1SIM_FIXED").is_err() {
            let _ = std::process::Command::new(exe)
                .args(std::env::args_os().skip(1))
                .env("BSN1SIM_FIXED", "1")
                .exec();
        }
    }
}

fn main() {
    fix_addresses();
    let args: Vec<String> = std::env::args().collect();
    let args: Vec<&str> = args.iter().map(|s| s.as_str()).collect();
    let code = match args[1..] {
        ["check", id] => sup::check(id),
        ["replay", file] => sup::replay(file),
        ["run", id, seed, i] => sup::single(id, seed.parse().expect("seed"), i.parse().expect("run")),
        ["list"] => {
            for p in props::PROPS {
                println!("{}", p.id);
            }
            0
        }
        _ => {
            eprintln!("usage: bsn1sim check ID | replay FILE | run ID SEED NUMBER | list");
            2
        }
    };
    std::process::exit(code);
}
