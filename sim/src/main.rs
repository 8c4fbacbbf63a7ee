//! Deterministic simulation of a collaborative editing service built on the prosemirror crate.

mod bridge;
mod clock;
mod disk;
mod drive;
mod gen;
mod json;
mod known;
mod model;
mod malformed;
mod parts;
mod peer;
mod press;
mod reader;
mod reason;
mod probe;
mod rng;
mod sched;
mod shrink;
mod world;

fn main() {
    bridge::install_hook();
    clock::fixed_addresses();
    let a: Vec<String> = std::env::args().skip(1).collect();
    let arg = |i: usize| a.get(i).cloned().unwrap_or_default();
    let num = |i: usize| arg(i).parse::<u64>().unwrap_or(0);
    let prop = |i: usize| match drive::focus(&arg(i)) {
        Some(p) => p,
        None => {
            eprintln!("usage: pmsim <property> | replay <file> | digest <property> <seed> <from> <to>");
            std::process::exit(2)
        }
    };
    let code = match arg(0).as_str() {
        "worker" => {
            drive::worker(prop(1), num(2), num(3), num(4), num(5));
            0
        }
        "one" => {
            drive::one(prop(1), num(2), num(3), &arg(4));
            0
        }
        "exec" => {
            drive::exec(&arg(1));
            0
        }
        "shrink" => {
            drive::shrink_file(&arg(1), &arg(2));
            0
        }
        "replay" => drive::replay(&arg(1)),
        "digest" => {
            for k in num(3)..num(4) {
                let f = prop(1);
                let r = sched::simulate(sched::seed_of(num(2), f, k), f, &mut |_| {});
                println!("{} {:016x} {:016x}", k, r.schedule, r.digest);
            }
            0
        }
        "debug" => {
            debug(prop(1), num(2), num(3), num(4));
            0
        }
        _ => drive::check(prop(0)),
    };
    std::process::exit(code);
}

/// debug <property> <seed> <from> <to>: runs in this process, everything printed.
fn debug(f: &'static str, seed: u64, from: u64, to: u64) {
    let mut cov = std::collections::BTreeMap::new();
    let ops = std::env::var("OPS").is_ok();
    for k in from..to {
        let r = sched::simulate(sched::seed_of(seed, f, k), f, &mut |o| {
            if ops {
                println!("{}", serde_json::to_string(o).unwrap());
            }
        });
        for v in r.violations.iter().take(4) {
            println!("run {} {} {:?} op {}\n{}\n", k, v.kind, v.tags, v.op, v.detail);
        }
        for (a, b) in r.cov {
            *cov.entry(a).or_insert(0u64) += b;
        }
    }
    for (a, b) in cov {
        println!("  {:30} {}", a, b);
    }
}
