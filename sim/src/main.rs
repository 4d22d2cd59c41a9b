//! Deterministic simulation of osm-io with fault injection. See DESIGN.md.
#![allow(clippy::all)]
mod fw;
mod model;
mod props;
mod rt;

use std::path::PathBuf;

fn arg(args: &[String], k: &str) -> Option<String> {
    args.iter().position(|a| a == k).and_then(|i| args.get(i + 1).cloned())
}

fn components() -> json::JsonValue {
    json::object! {
        "real": json::array!["osm-io (from /repo's working tree)", "command-executor thread pools and queues", "crossbeam queues", "text-file-sort", "prost, flate2, json", "Rust std (threads, mutexes, condition variables, channels, files)", "glibc pthreads' bookkeeping of thread start and exit"],
        "simulated": json::array!["thread scheduler (one thread runs at a time, chosen by the seeded scheduler)", "futex wait and wake", "clock_gettime, nanosleep, sched_yield", "result of open, read, write, lseek, mkdir, rename, unlink and related calls on files of the scratch directory (fault injection in front of the real call)", "getrandom", "number of CPUs", "heap addresses", "process death"],
        "stubbed": json::array!["none: file contents live in the real page cache of a scratch directory"],
    }
}

fn main() {
    rt::check_layout();
    // address space layout must not influence a run
    unsafe {
        let p = libc::personality(0xffffffff);
        if p >= 0 && p & libc::ADDR_NO_RANDOMIZE == 0 && std::env::var("SIM_REEXEC").is_err() {
            libc::personality(p as libc::c_ulong | libc::ADDR_NO_RANDOMIZE as libc::c_ulong);
            use std::os::unix::process::CommandExt;
            let e = std::process::Command::new(std::env::current_exe().unwrap()).args(std::env::args().skip(1)).env("SIM_REEXEC", "1").exec();
            eprintln!("re-exec failed: {e}");
        }
        libc::mallopt(-8, 1); // M_ARENA_MAX
    }
    for v in ["RUST_BACKTRACE", "RUST_LIB_BACKTRACE"] {
        std::env::remove_var(v);
    }
    fw::install_panic_hook();
    let args: Vec<String> = std::env::args().collect();
    let all = props::all();
    let root = PathBuf::from(arg(&args, "--root").unwrap_or("/verif".into()));
    // memory instead of a disk where possible: many small files, none of them worth keeping
    let probe = PathBuf::from(format!("/dev/shm/osmio-sim-probe.{}", std::process::id()));
    let shm = std::fs::write(&probe, [0u8; 65536]).is_ok();
    let _ = std::fs::remove_file(&probe);
    let base = PathBuf::from(std::env::var("SIM_SCRATCH").unwrap_or(if shm { "/dev/shm" } else { "/tmp" }.into()));
    let scratch = base.join(format!("osmio-sim.{}", std::process::id()));
    let code = match args.get(1).map(|s| s.as_str()) {
        Some("check") => {
            let prop = args[2].clone();
            let thorough = std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false) || args.iter().any(|a| a == "--thorough");
            let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1u64);
            let p = fw::Params {
                prop,
                seed,
                thorough,
                max_runs: arg(&args, "--runs").map(|s| s.parse().unwrap()).unwrap_or(u64::MAX),
                budget_s: arg(&args, "--seconds").map(|s| s.parse().unwrap()).unwrap_or(if thorough { 600.0 } else { 45.0 }),
                workers: arg(&args, "--workers").map(|s| s.parse().unwrap()).unwrap_or(8),
                root,
                scratch,
                only: arg(&args, "--only"),
            };
            let note = std::fs::read_to_string(p.root.join("level_notes.json"))
                .ok()
                .and_then(|t| json::parse(&t).ok())
                .map(|j| j[p.prop.as_str()].to_string())
                .unwrap_or_default();
            fw::check(&p, &all, &note, &components())
        }
        // debugging aid: executes run numbers FROM..TO and prints what each did
        Some("runs") => {
            let scs: Vec<_> = all.iter().copied().filter(|s| s.prop == args[2]).collect();
            let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1u64);
            let sh = rt::new_shared();
            let (a, b): (u64, u64) = (args[3].parse().unwrap(), args[4].parse().unwrap());
            for i in a..b {
                let (sc, case, s) = fw::run_case(&scs, fw::mix(seed, fw::hash_str(&args[2])), i, false);
                let o = fw::exec(sc, &case, s, None, sh, &scratch, args.iter().any(|a| a == "-v"));
                println!("{i} {} {:#x} v{} {}", sc.name, o.event_hash, o.verdict, o.summary());
                if args.iter().any(|a| a == "-v") {
                    println!("{}\n{}\n{}", case.to_json().dump(), o.panics, o.trace.join("\n"));
                }
            }
            let _ = std::fs::remove_dir_all(&scratch);
            0
        }
        Some("replay") => fw::replay(&PathBuf::from(&args[2]), &all, &scratch, args.iter().any(|a| a == "-v")),
        _ => {
            eprintln!("usage: osmio-sim check <property> [--seconds N] [--runs N] | replay <file> [-v]");
            2
        }
    };
    std::process::exit(code);
}
