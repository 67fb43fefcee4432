//! Model checker for murarth/mortal. Usage: mc ID | mc replay FILE

#![allow(unknown_lints, invalid_runtime_symbol_definitions, dead_code)]

#[macro_use]
mod engine;
mod checks;
mod model;
mod raw;
mod sched;
mod term;
mod vt;
mod world;

/// Binds a worker to one processor; its threads run one at a time anyway.
pub fn pin(slot: usize) {
    unsafe {
        let mut set: libc::cpu_set_t = std::mem::zeroed();
        if libc::sched_getaffinity(0, std::mem::size_of_val(&set), &mut set) != 0 {
            return;
        }
        let cpus: Vec<usize> = (0..libc::CPU_SETSIZE as usize).filter(|&c| libc::CPU_ISSET(c, &set)).collect();
        if cpus.is_empty() {
            return;
        }
        let mut one: libc::cpu_set_t = std::mem::zeroed();
        libc::CPU_SET(cpus[slot % cpus.len()], &mut one);
        libc::sched_setaffinity(0, std::mem::size_of_val(&one), &one);
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.len() < 2 {
        eprintln!("usage: mc ID | mc replay FILE | mc list");
        std::process::exit(2);
    }
    let root = std::env::var("MC_ROOT").unwrap_or_else(|_| "/verif".into());
    term::init(&root);
    engine::install_panic_hook();
    engine::read_known(&root);
    #[cfg(mortal_verif)]
    mortal::verif::set_hook(Some(sched::hook));
    let seed: i64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);

    if args[1] == "list" {
        for id in checks::IDS {
            println!("{}", id);
        }
        return;
    }
    if args[1] == "replay" {
        let text = std::fs::read_to_string(&args[2]).expect("cannot read replay file");
        let get = |k: &str| {
            text.lines().find_map(|l| l.strip_prefix(&format!("{}=", k))).unwrap_or("").to_string()
        };
        let choices: Vec<u32> = get("choices").split(',').filter_map(|c| c.parse().ok()).collect();
        let c = checks::get(&get("check"), &get("tier")).expect("no such check");
        std::process::exit(engine::replay(c, &get("job"), &choices));
    }
    let tier = match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => "thorough",
        _ => "quick",
    };
    match checks::get(&args[1], tier) {
        Some(c) => std::process::exit(engine::run_check(c, tier, seed, &root)),
        None => {
            eprintln!("no check {}", args[1]);
            std::process::exit(2);
        }
    }
}
