//! Documents shared by threads (property C16): real threads of which one runs at a time, preempted
//! at any read, write, atomic operation or function entry of the library by a seeded scheduler
//! (rt.c), each then compared with what it sees alone.

#[path = "../src/bridge.rs"]
mod bridge;
#[path = "../src/gen.rs"]
mod gen;
#[path = "../src/json.rs"]
mod json;
#[path = "../src/model.rs"]
mod model;
#[path = "../src/rng.rs"]
mod rng;
mod work;
mod drive {
    pub static PROGRESS: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
}

use rng::Rng;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::io::{BufRead, BufReader, Write};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};
use work::*;

extern "C" {
    fn rt_shm() -> *mut u8;
    fn rt_use(p: *mut u8);
    fn rt_events() -> u64;
    fn rt_switches() -> u64;
    fn rt_hash() -> u64;
    fn rt_kind(i: i32) -> u64;
    fn rt_switch(i: u64, which: i32) -> u64;
    fn rt_blob() -> *mut u8;
    fn rt_len() -> u64;
    fn rt_cap() -> u64;
    fn rt_set_len(n: u64);
    fn rt_begin(n: i32, seed: u64, gap: u64, hot: u64, stall: u64, limit: u64, rep: *const u64, nrep: u64, replay: i32);
    fn rt_go(first: i32);
    fn rt_thread(id: i32);
    fn rt_over();
    fn rt_inside(v: i32) -> i32;
    fn rt_op(n: u64);
    fn rt_fork() -> i32;
    fn rt_wait(pid: i32, ms: i32) -> i32;
    fn rt_exit(code: i32) -> !;
}

const KINDS: [&str; 8] = [
    "function entries",
    "reads",
    "writes",
    "accesses of static data",
    "atomic operations",
    "lock waits and wakes",
    "operation starts",
    "ends and waits",
];
const LIMIT: u64 = 80_000_000;
const WORKERS: u64 = 8;

/// While it lives, the scheduler may take the token away.
pub struct Inside(i32);
impl Inside {
    pub fn new() -> Inside {
        Inside(unsafe { rt_inside(1) })
    }
}
impl Drop for Inside {
    fn drop(&mut self) {
        unsafe {
            rt_inside(self.0);
        }
    }
}
pub fn rt_op_safe(n: u64) {
    if ON.load(std::sync::atomic::Ordering::Relaxed) {
        unsafe { rt_op(n) }
    }
}
static ON: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);

#[derive(Serialize, Deserialize, Default)]
struct Left {
    threads: Vec<Vec<Seen>>,
    wrong: Vec<String>,
}

fn leave<T: Serialize>(x: &T) -> ! {
    let b = serde_json::to_vec(x).unwrap();
    unsafe {
        if b.len() as u64 > rt_cap() {
            rt_exit(90);
        }
        std::ptr::copy_nonoverlapping(b.as_ptr(), rt_blob(), b.len());
        rt_set_len(b.len() as u64);
        rt_exit(0)
    }
}

fn left<T: for<'de> Deserialize<'de>>() -> Option<T> {
    let b = unsafe { std::slice::from_raw_parts(rt_blob(), rt_len() as usize) };
    serde_json::from_slice(b).ok()
}

/// In a process of its own: the threads together.
fn together(case: &Case) -> ! {
    let shared = case.shared();
    let rep: Vec<u64> = case.switches.iter().flatten().flat_map(|(a, b)| [*a, *b]).collect();
    let n = case.threads.len();
    unsafe {
        rt_begin(
            n as i32,
            case.seed,
            case.gap,
            case.hot,
            case.stall,
            LIMIT,
            rep.as_ptr(),
            rep.len() as u64 / 2,
            case.switches.is_some() as i32,
        );
    }
    ON.store(true, std::sync::atomic::Ordering::Relaxed);
    let threads = std::thread::scope(|sc| {
        let hs: Vec<_> = (0..n)
            .map(|t| {
                let shared = &shared;
                // marks of the model are not to be sent: every thread has its own copy of the case
                let c = serde_json::to_string(case).unwrap();
                sc.spawn(move || {
                    let c: Case = serde_json::from_str(&c).unwrap();
                    unsafe { rt_thread(t as i32) };
                    let r = program(&c, shared, t, Source::Slots);
                    let r = serde_json::to_string(&r).unwrap();
                    unsafe { rt_over() };
                    r
                })
            })
            .collect();
        unsafe { rt_go(case.first as i32) };
        hs.into_iter().map(|h| serde_json::from_str(&h.join().unwrap()).unwrap()).collect()
    });
    ON.store(false, std::sync::atomic::Ordering::Relaxed);
    let wrong = afterwards(case, &shared);
    leave(&Left { threads, wrong })
}

/// In a process of its own: one thread's program, alone.
fn alone(case: &Case, t: usize, record: &[Seen]) -> ! {
    let shared = case.shared();
    leave(&program(case, &shared, t, Source::Record(record)))
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq, Eq)]
pub struct Violation {
    pub kind: String,
    pub detail: String,
}

struct Outcome {
    hit: Option<Violation>,
    /// the harness itself failed
    broken: bool,
    events: u64,
    switches: Vec<(u64, u64)>,
    hash: u64,
    kinds: Vec<u64>,
    digest: u64,
}

fn in_child(shm: *mut u8, ms: i32, f: impl FnOnce()) -> i32 {
    unsafe {
        rt_use(shm);
        match rt_fork() {
            0 => {
                f();
                rt_exit(89)
            }
            p if p > 0 => rt_wait(p, ms),
            _ => 998,
        }
    }
}

fn short(s: &str) -> String {
    let mut e = s.len().min(1500);
    while !s.is_char_boundary(e) {
        e -= 1;
    }
    s[..e].to_string()
}

fn execute(shm: *mut u8, case: &Case) -> Outcome {
    let code = in_child(shm, 60_000, || together(case));
    let mut o = unsafe {
        Outcome {
            hit: None,
            broken: false,
            events: rt_events(),
            switches: (0..rt_switches()).map(|i| (rt_switch(i, 0), rt_switch(i, 1))).collect(),
            hash: rt_hash(),
            kinds: (0..KINDS.len() as i32).map(|i| rt_kind(i)).collect(),
            digest: 0,
        }
    };
    let mut h = rng::Hash64::new();
    h.add(o.hash);
    h.add(o.events);
    let v = |kind: &str, detail: String| Some(Violation { kind: kind.to_string(), detail });
    let got: Option<Left> = if code == 0 { left() } else { None };
    match (code, got) {
        (0, Some(l)) => {
            h.bytes(unsafe { std::slice::from_raw_parts(rt_blob(), rt_len() as usize) });
            'cmp: for t in 0..case.threads.len() {
                let code = in_child(shm, 60_000, || alone(case, t, &l.threads[t]));
                let a: Option<Vec<Seen>> = if code == 0 { left() } else { None };
                let a = match a {
                    Some(a) => a,
                    None if code == 90 || code == 998 || code == 999 || code == 89 => {
                        o.broken = true;
                        break;
                    }
                    // alone it does not even come to an end: not a matter of sharing
                    None => continue,
                };
                for (i, (x, y)) in l.threads[t].iter().zip(&a).enumerate() {
                    if x.said != y.said {
                        o.hit = v(
                            "a thread saw something else than alone",
                            format!(
                                "thread {} operation {} {}\n together: {}\n alone:    {}",
                                t,
                                i,
                                serde_json::to_string(&case.threads[t][i]).unwrap(),
                                short(&x.said),
                                short(&y.said)
                            ),
                        );
                        break 'cmp;
                    }
                }
            }
            if o.hit.is_none() {
                if let Some(w) = l.wrong.first() {
                    // the same without any switch: not a matter of sharing
                    o.hit = v("a shared value changed", short(w));
                }
            }
        }
        (91, _) => o.hit = v("the threads do not come to an end", format!("more than {} events", LIMIT)),
        (92, _) => o.hit = v("the threads wait for one another for ever", String::new()),
        (89 | 90 | 998 | 999, _) | (0, None) => o.broken = true,
        (c, _) => {
            // does it also end when the threads run one after the other?
            let mut calm = case.clone();
            calm.switches = Some(vec![]);
            if in_child(shm, 60_000, || together(&calm)) == c {
                o.broken = false;
            } else {
                o.hit = v("the threads bring the process down", format!("exit code or signal {}", c));
            }
        }
    }
    o.digest = h.0;
    o
}

// ---------------------------------------------------------------- searching

#[derive(Serialize, Deserialize, Clone)]
struct Replay {
    property: String,
    seed: u64,
    run: u64,
    violation: Violation,
    case: Case,
    #[serde(default, skip_serializing_if = "String::is_empty")]
    note: String,
}

#[derive(Serialize, Deserialize, Default)]
struct Delta {
    runs: u64,
    ops: u64,
    events: u64,
    switches: u64,
    kinds: Vec<u64>,
    whats: BTreeMap<String, u64>,
    threads: BTreeMap<u64, u64>,
    hashes: Vec<u64>,
    broken: u64,
    again: u64,
    differ: u64,
    samples: Vec<Value>,
}

fn seed_of(seed: u64, k: u64) -> u64 {
    let mut x = seed ^ 0x5ca1ab1e_c16;
    let a = rng::splitmix(&mut x);
    let mut y = a ^ k.wrapping_mul(0x9e3779b97f4a7c15);
    rng::splitmix(&mut y)
}

fn worker(seed: u64, first: u64, step: u64, end: u64) {
    let shm = unsafe { rt_shm() };
    let mut d = Delta::default();
    let mut k = first;
    let mut last = Instant::now();
    let say = |l: String| {
        let mut o = std::io::stdout().lock();
        if writeln!(o, "{}", l).and_then(|_| o.flush()).is_err() {
            std::process::exit(0);
        }
    };
    while k < end {
        let case = deal(seed_of(seed, k));
        let o = execute(shm, &case);
        d.runs += 1;
        d.events += o.events;
        d.switches += o.switches.len() as u64;
        d.kinds.resize(KINDS.len(), 0);
        for (a, b) in d.kinds.iter_mut().zip(&o.kinds) {
            *a += b;
        }
        *d.threads.entry(case.threads.len() as u64).or_insert(0) += 1;
        for x in case.threads.iter().flatten() {
            d.ops += 1;
            *d.whats.entry(format!("{:?}", x.what)).or_insert(0) += 1;
        }
        if o.broken {
            d.broken += 1;
        }
        if o.switches.len() > case.threads.len() {
            d.hashes.push(o.hash);
        }
        if k < 64 {
            // the recorded schedule, played back, is the same execution
            let mut c = case.clone();
            c.switches = Some(o.switches.clone());
            d.again += 1;
            d.differ += (execute(shm, &c).digest != o.digest) as u64;
        }
        if k == 0 {
            d.samples.push(json!({
                "run": k, "threads": case.threads, "documents": case.docs.len(), "events": o.events,
                "first_switches": o.switches.iter().take(20).collect::<Vec<_>>(), "switches": o.switches.len(),
            }));
        }
        if let Some(v) = o.hit {
            let mut case = case;
            case.switches = Some(o.switches);
            say(format!("S {}", serde_json::to_string(&d).unwrap()));
            let r = Replay { property: "C16".into(), seed, run: k, violation: v, case, note: String::new() };
            say(format!("V {}", serde_json::to_string(&r).unwrap()));
            return;
        }
        k += step;
        if last.elapsed() > Duration::from_millis(500) {
            say(format!("S {}", serde_json::to_string(&d).unwrap()));
            d = Delta::default();
            last = Instant::now();
        }
    }
    say(format!("S {}", serde_json::to_string(&d).unwrap()));
    say("E".into());
}

/// Fewer threads, operations and switches that still show a violation of the same kind.
fn shrink(shm: *mut u8, r: &Replay, budget: Duration) -> Replay {
    let t0 = Instant::now();
    let mut best = r.clone();
    let kind = r.violation.kind.clone();
    let mut rnd = Rng::new(r.seed ^ r.run);
    let mut attempt = |c: &Case, tries: u64, best: &mut Replay| -> bool {
        for i in 0..tries {
            if t0.elapsed() > budget {
                return false;
            }
            let mut c = c.clone();
            if i > 0 {
                // the old schedule does not suit it: look for another
                c.switches = None;
                c.seed = rnd.next();
                c.first = rnd.below(c.threads.len()) as u64;
                c.gap = *rnd.pick(&[3, 30, 300, 3000]);
                c.hot = *rnd.pick(&[0, 300, 900]);
            }
            let o = execute(shm, &c);
            if let Some(v) = o.hit {
                if v.kind == kind {
                    c.switches = Some(o.switches);
                    best.case = c;
                    best.violation = v;
                    return true;
                }
            }
        }
        false
    };
    loop {
        let mut any = false;
        let mut t = 0;
        while t < best.case.threads.len() && best.case.threads.len() > 2 {
            let mut c = best.case.clone();
            c.threads.remove(t);
            if attempt(&c, 60, &mut best) {
                any = true;
            } else {
                t += 1;
            }
        }
        for t in 0..best.case.threads.len() {
            let mut n = best.case.threads[t].len();
            while n >= 1 {
                let mut i = 0;
                while i + n <= best.case.threads[t].len() {
                    if best.case.threads[t].len() == n {
                        break;
                    }
                    let mut c = best.case.clone();
                    c.threads[t].drain(i..i + n);
                    if attempt(&c, 40, &mut best) {
                        any = true;
                    } else {
                        i += n;
                    }
                }
                n /= 2;
            }
        }
        if !any || t0.elapsed() > budget {
            break;
        }
    }
    // the schedule
    let mut n = best.case.switches.as_ref().map_or(0, |s| s.len());
    while n >= 1 {
        let mut i = 0;
        while i < best.case.switches.as_ref().unwrap().len() {
            let mut c = best.case.clone();
            let s = c.switches.as_mut().unwrap();
            let e = (i + n).min(s.len());
            s.drain(i..e);
            let len = s.len();
            let mut cand = best.clone();
            if attempt(&c, 1, &mut cand) {
                // what was executed may have further forced switches: keep the shorter list
                let given = c.switches.clone().unwrap();
                if cand.case.switches.as_ref().unwrap().len() > given.len() {
                    cand.case.switches = Some(given);
                }
                best = cand;
                let _ = len;
            } else {
                i += n;
            }
            if t0.elapsed() > budget {
                break;
            }
        }
        n /= 2;
    }
    best
}

fn check() -> i32 {
    let t0 = Instant::now();
    let env = |n: &str| std::env::var(n).ok().and_then(|s| s.trim().parse::<u64>().ok());
    let seed = env("VERIF_SEED").unwrap_or(1);
    let thorough = std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false);
    let runs = env("PMSIM_RUNS").unwrap_or(if thorough { u64::MAX / 2 } else { 30_000 });
    let budget = Duration::from_secs(env("PMSIM_SECONDS").unwrap_or(if thorough { 600 } else { 90 }));
    let root = std::env::var("PMSIM_OUT").unwrap_or_else(|_| "/verif".to_string());
    for d in ["evidence", "replays"] {
        if std::fs::create_dir_all(format!("{}/{}", root, d)).is_err() {
            return 2;
        }
    }
    let (tx, rx) = std::sync::mpsc::channel::<(usize, Option<String>)>();
    let mut kids = vec![];
    for i in 0..WORKERS {
        let mut c = Command::new(std::env::current_exe().expect("own path"))
            .args(["worker", &seed.to_string(), &i.to_string(), &WORKERS.to_string(), &runs.to_string()])
            .stdout(Stdio::piped())
            .stderr(Stdio::null())
            .spawn()
            .expect("worker");
        let out = c.stdout.take().unwrap();
        let tx = tx.clone();
        std::thread::spawn(move || {
            for l in BufReader::new(out).lines().map_while(Result::ok) {
                let _ = tx.send((i as usize, Some(l)));
            }
            let _ = tx.send((i as usize, None));
        });
        kids.push(c);
    }
    drop(tx);
    let mut all = Delta::default();
    all.kinds = vec![0; KINDS.len()];
    let mut hashes = HashSet::new();
    let mut hit: Option<Replay> = None;
    let mut stopped = false;
    let mut ended = vec![false; WORKERS as usize];
    let mut gone = 0;
    let mut grace: Option<Instant> = None;
    while gone < WORKERS {
        let late = t0.elapsed() > budget || grace.map_or(false, |g| g.elapsed() > Duration::from_secs(10));
        if late && !stopped {
            stopped = true;
            for k in &mut kids {
                let _ = k.kill();
            }
        }
        let (i, l) = match rx.recv_timeout(Duration::from_millis(100)) {
            Ok(x) => x,
            Err(_) => continue,
        };
        let l = match l {
            Some(l) => l,
            None => {
                gone += 1;
                continue;
            }
        };
        if l == "E" {
            ended[i] = true;
        } else if let Some(x) = l.strip_prefix("V ") {
            ended[i] = true;
            if let Ok(r) = serde_json::from_str::<Replay>(x) {
                if hit.as_ref().map_or(true, |h| r.run < h.run) {
                    hit = Some(r);
                }
                grace.get_or_insert(Instant::now());
            }
        } else if let Some(x) = l.strip_prefix("S ") {
            if let Ok(d) = serde_json::from_str::<Delta>(x) {
                all.runs += d.runs;
                all.ops += d.ops;
                all.events += d.events;
                all.switches += d.switches;
                for (a, b) in all.kinds.iter_mut().zip(&d.kinds) {
                    *a += b;
                }
                for (a, b) in d.whats {
                    *all.whats.entry(a).or_insert(0) += b;
                }
                for (a, b) in d.threads {
                    *all.threads.entry(a).or_insert(0) += b;
                }
                hashes.extend(d.hashes);
                all.broken += d.broken;
                all.again += d.again;
                all.differ += d.differ;
                all.samples.extend(d.samples);
            }
        }
    }
    for k in &mut kids {
        let _ = k.wait();
    }
    let explore_s = t0.elapsed().as_secs_f64();
    let lost = ended.iter().filter(|e| !**e).count();
    let mut path = None;
    if let Some(r) = hit {
        let p = format!("{}/replays/C16-{}-{}.json", root, seed, r.run);
        let shm = unsafe { rt_shm() };
        let secs = env("PMSIM_SHRINK").unwrap_or(40);
        let mut m = shrink(shm, &r, Duration::from_secs(secs));
        let o = execute(shm, &m.case);
        if o.hit.as_ref() != Some(&m.violation) {
            m = r;
            if execute(shm, &m.case).hit.as_ref() != Some(&m.violation) {
                m.note = "another execution does not repeat this: the code under test does not behave the same twice".into();
            }
        }
        let _ = std::fs::write(&p, serde_json::to_vec_pretty(&m).unwrap());
        println!("C16: {}\n{}", m.violation.kind, m.violation.detail);
        println!(
            "C16: seed {} run {}: {} threads, {} operations, {} switches",
            seed,
            m.run,
            m.case.threads.len(),
            m.case.threads.iter().map(Vec::len).sum::<usize>(),
            m.case.switches.as_ref().map_or(0, Vec::len)
        );
        if !m.note.is_empty() {
            println!("{}", m.note);
        }
        path = Some(p);
    }
    let kinds: BTreeMap<&str, u64> = KINDS.iter().copied().zip(all.kinds.iter().copied()).collect();
    let pick = |ks: &[&str]| ks.iter().map(|k| (k.to_string(), all.whats.get(*k).copied().unwrap_or(0))).collect::<BTreeMap<_, _>>();
    let mut faults = pick(&["WalkPanics", "EncodeFails", "DecodeFails"]);
    faults.insert("preemptions inside operations".into(), all.switches.saturating_sub(all.kinds[7]));
    let v = json!({
        "property": "C16",
        "tier": if thorough { "thorough" } else { "quick" },
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": all.runs,
            "distinct_nontrivial": hashes.len(),
            "rule": "One evaluation is one case: two to eight threads that share documents, slices, steps and mark sets, each with a program of operations on them and on what others published, executed under one seeded schedule and then each alone in a process of its own. A run is non-trivial when there were more switches than threads; two are the same when their sequence of switches is: from which operation of which thread to which operation of which other.",
            "samples": all.samples,
            "operations_executed": all.ops,
            "operations_by_kind": all.whats,
            "threads": all.threads,
            "points_where_the_scheduler_could_switch": all.events,
            "points_by_kind": kinds,
            "switches": all.switches,
            "faults_injected": faults,
            "runs_per_hour_each_with_its_own_seed": (all.runs as f64 / (explore_s.max(0.001) / 3600.0)) as u64,
            "simulated_seconds": 0,
            "simulated_time": "the property depends on no clock; progress is counted in scheduling points",
            "harness_failures": all.broken,
            "runs_executed_twice": all.again,
            "runs_that_differed_the_second_time": all.differ,
            "real_code": ["prosemirror and its dependencies, compiled with the thread sanitizer's instrumentation", "std's threads, locks and allocator"],
            "simulated": ["the scheduler: one thread runs at a time, switches at instrumented reads, writes, atomic operations, function entries and futex calls", "the kernel's answers to futex calls, sleeping and yielding"],
            "replay": path,
        },
        "assumptions": [
            "memory is sequentially consistent: reorderings of weak atomic operations are not simulated",
            "no switch happens within code of std that is not generic (it is not instrumented), except where it waits",
        ],
        "wall_s": t0.elapsed().as_secs_f64(),
        "violations": path.is_some() as u32,
    });
    let _ = std::fs::write(format!("{}/evidence/C16.json", root), serde_json::to_vec_pretty(&v).unwrap());
    println!(
        "C16: {} runs, {} operations, {} switches, {} distinct schedules, {:.1} s",
        all.runs,
        all.ops,
        all.switches,
        hashes.len(),
        t0.elapsed().as_secs_f64()
    );
    if let Some(p) = path {
        println!("VIOLATION property=C16 replay={}", p);
        return 1;
    }
    if all.runs == 0 || all.broken > 0 || (lost > 0 && !stopped) {
        println!("C16: the harness failed ({} runs, {} broken, {} workers lost)", all.runs, all.broken, lost);
        return 2;
    }
    0
}

fn replay(path: &str) -> i32 {
    let r: Replay = match std::fs::read(path).ok().and_then(|b| serde_json::from_slice(&b).ok()) {
        Some(r) => r,
        None => {
            eprintln!("{} is not a replay file", path);
            return 2;
        }
    };
    let o = execute(unsafe { rt_shm() }, &r.case);
    match o.hit {
        None => {
            println!("no violation");
            0
        }
        Some(v) => {
            println!("{}\n{}", v.kind, v.detail);
            if v == r.violation {
                println!("VIOLATION property=C16 replay={}", path);
                1
            } else {
                println!("another violation than the file describes: {}", r.violation.kind);
                2
            }
        }
    }
}

fn main() {
    bridge::install_hook();
    sharable();
    let a: Vec<String> = std::env::args().skip(1).collect();
    let num = |i: usize| a.get(i).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0);
    let code = match a.first().map(|s| s.as_str()) {
        Some("worker") => {
            worker(num(1), num(2), num(3), num(4));
            0
        }
        Some("replay") => replay(&a[1]),
        Some("one") => {
            let case = deal(seed_of(num(1), num(2)));
            println!("{}", serde_json::to_string_pretty(&case).unwrap());
            let o = execute(unsafe { rt_shm() }, &case);
            println!("{:?} broken {} events {} switches {} kinds {:?}", o.hit, o.broken, o.events, o.switches.len(), o.kinds);
            0
        }
        _ => check(),
    };
    std::process::exit(code);
}
