//! Runs a check: many simulated runs in worker processes, then evidence or a replay file.

use crate::model::MNode;
use crate::sched;
use crate::shrink::{self, Trace};
use crate::world::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, Command, Stdio};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::mpsc;
use std::time::{Duration, Instant};

pub static PROGRESS: AtomicU64 = AtomicU64::new(0);
static PATIENCE: AtomicU64 = AtomicU64::new(15);
const HUNG: i32 = 97;
const WORKERS: u64 = 8;
/// what a worker may allocate, KiB
const MEMORY: u64 = 2_500_000;

/// What a replay file holds.
#[derive(Serialize, Deserialize, Clone)]
pub struct Replay {
    pub property: String,
    pub seed: u64,
    pub run: u64,
    pub run_seed: u64,
    pub violation: Violation,
    pub shrunk_from: usize,
    pub config: Config,
    pub init: Vec<MNode>,
    pub ops: Vec<Op>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub note: Option<String>,
    /// Runs the same process made before, where the violation depends on what the library keeps
    /// between them.
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub before: Vec<u64>,
}

impl Replay {
    fn trace(&self) -> Trace {
        Trace {
            cfg: self.config.clone(),
            init: self.init.clone(),
            ops: self.ops.clone(),
        }
    }
}

pub fn focus(name: &str) -> Option<&'static str> {
    PROPS.iter().find(|p| **p == name).copied()
}

/// The counter that says how often a run exercised what the property talks about.
fn relevant(focus: &str) -> &'static [&'static str] {
    match focus {
        "C01" => &["remote.applied", "decoded.compared"],
        "C02" => &["recoveries"],
        "C03" => &["hostile", "undecodable", "apply.stale"],
        "C04" => &["accepted"],
        "C05" => &["apply.replace"],
        "C06" => &["apply.mark"],
        "C07" => &["apply.around"],
        "C08" => &["apply.structural"],
        "C09" => &["rollbacks"],
        "C10" => &["positions.resolved"],
        "C11" => &["streams.values", "streams.dialects"],
        "C12" => &["ranges.read", "nodes.walked"],
        "C13" => &["fits.asked"],
        "C14" => &["markdown.came back"],
        "C15" => &["markdown.imported"],
        "C17" => &["malformed.received"],
        "C18" => &["parts.nodes"],
        "C19" => &["peer.read"],
        "C20" => &["refusals"],
        _ => &[],
    }
}

/// CPU seconds of the main thread.
fn cpu() -> f64 {
    let pid = std::process::id();
    let s = std::fs::read_to_string(format!("/proc/self/task/{}/stat", pid)).unwrap_or_default();
    let rest = s.rsplit(')').next().unwrap_or("");
    let f: Vec<&str> = rest.split_whitespace().collect();
    let t = |i: usize| f.get(i).and_then(|x| x.parse::<f64>().ok()).unwrap_or(0.0);
    (t(11) + t(12)) / 100.0
}

/// Ends the process when one operation takes the main thread more CPU time than it may. CPU time,
/// so that a loaded machine is not mistaken for a hang.
pub fn watchdog() {
    if let Some(p) = std::env::var("PMSIM_PATIENCE").ok().and_then(|v| v.parse().ok()) {
        PATIENCE.store(p, Ordering::Relaxed);
    }
    std::thread::spawn(|| {
        let mut last = (u64::MAX, 0.0);
        loop {
            std::thread::sleep(Duration::from_millis(400));
            let p = PROGRESS.load(Ordering::Relaxed);
            let t = cpu();
            if p != last.0 {
                last = (p, t);
            } else if t - last.1 > PATIENCE.load(Ordering::Relaxed) as f64 {
                let out = std::io::stdout();
                let _ = out.lock().flush();
                std::process::exit(HUNG);
            }
        }
    });
}

fn me() -> std::path::PathBuf {
    std::env::current_exe().expect("own path")
}

/// This program under a memory limit.
fn limited(args: &[String]) -> Command {
    let mut c = Command::new("/bin/bash");
    c.arg("-c")
        .arg(format!("ulimit -v {}; ulimit -c 0; exec \"$0\" \"$@\"", MEMORY))
        .arg(me());
    c.args(args);
    c.stderr(Stdio::null());
    c
}

// ---------------------------------------------------------------- workers

#[derive(Serialize, Deserialize, Default)]
struct Delta {
    runs: u64,
    ops: u64,
    sim_us: u64,
    settled: u64,
    versions: u64,
    /// schedules of the runs that count as non-trivial
    schedules: Vec<u64>,
    docs: Vec<u64>,
    cov: BTreeMap<String, u64>,
    foreign: BTreeMap<String, u64>,
    samples: Vec<Value>,
}

/// The smallest hashes seen: enough to estimate how many different ones there were.
#[derive(Default)]
struct Kmv(BTreeSet<u64>);
const KMV: usize = 2048;

impl Kmv {
    fn add(&mut self, h: u64) -> bool {
        if self.0.len() >= KMV && h >= *self.0.iter().next_back().unwrap() {
            return false;
        }
        let new = self.0.insert(h);
        if self.0.len() > KMV {
            let x = *self.0.iter().next_back().unwrap();
            self.0.remove(&x);
        }
        new
    }
    fn estimate(&self) -> u64 {
        if self.0.len() < KMV {
            return self.0.len() as u64;
        }
        let top = *self.0.iter().next_back().unwrap() as f64 / u64::MAX as f64;
        ((KMV - 1) as f64 / top) as u64
    }
}

fn spread(mut h: u64) -> u64 {
    // the model's hashes are good enough for a set, not for an order
    h = (h ^ (h >> 33)).wrapping_mul(0xff51afd7ed558ccd);
    h = (h ^ (h >> 33)).wrapping_mul(0xc4ceb9fe1a85ec53);
    h ^ (h >> 33)
}

fn sample(seed: u64, k: u64, r: &sched::Run) -> Value {
    let shown = r.ops.len().min(10);
    json!({
        "run": k,
        "run_seed": seed,
        "clients": r.cfg.clients,
        "followers": r.cfg.followers,
        "operations": r.ops.len(),
        "versions": r.versions,
        "simulated_us": r.sim_us,
        "first_document": serde_json::to_value(&r.init).unwrap_or(Value::Null),
        "first_operations": r.ops[..shown].iter()
            .map(|o| cut(&serde_json::to_string(o).unwrap_or_default(), 300)).collect::<Vec<_>>(),
        "counters": r.cov.iter().map(|(a, b)| (a.to_string(), *b)).collect::<BTreeMap<_, _>>(),
    })
}

/// worker <id> <seed> <first> <step> <end>
pub fn worker(f: &'static str, seed: u64, first: u64, step: u64, end: u64) {
    watchdog();
    let out = std::io::stdout();
    let mut d = Delta::default();
    let mut docs = Kmv::default();
    let mut sampled = first != 0;
    let mut k = first;
    let mut last = Instant::now();
    let say = |line: String| {
        let mut o = out.lock();
        if writeln!(o, "{}", line).and_then(|_| o.flush()).is_err() {
            std::process::exit(0);
        }
    };
    while k < end {
        say(format!("B {}", k));
        let s = sched::seed_of(seed, f, k);
        let r = sched::simulate(s, f, &mut |_| {
            PROGRESS.fetch_add(1, Ordering::Relaxed);
        });
        d.runs += 1;
        d.ops += r.ops.len() as u64;
        d.sim_us += r.sim_us;
        d.settled += r.settled as u64;
        d.versions += r.versions as u64;
        let touched: u64 = relevant(f).iter().map(|n| r.cov.get(n).copied().unwrap_or(0)).sum();
        let nontrivial = touched > 0 && r.versions > 1;
        if nontrivial {
            d.schedules.push(r.schedule);
        }
        for h in &r.doc_hashes {
            let h = spread(*h);
            if docs.add(h) {
                d.docs.push(h);
            }
        }
        if nontrivial && !sampled && r.ops.len() > 30 {
            sampled = true;
            d.samples.push(sample(s, k, &r));
        }
        for (a, b) in &r.cov {
            *d.cov.entry(a.to_string()).or_insert(0) += b;
        }
        for (a, b) in &r.foreign {
            *d.foreign.entry(a.clone()).or_insert(0) += b;
        }
        if k < 64 {
            say(format!("D {} {}", k, r.digest));
        }
        if let Some(h) = r.hit {
            let rp = Replay {
                property: f.to_string(),
                seed,
                run: k,
                run_seed: s,
                violation: h,
                shrunk_from: r.ops.len(),
                config: r.cfg,
                init: r.init,
                ops: r.ops,
                note: None,
                before: vec![],
            };
            say(format!("S {}", serde_json::to_string(&d).unwrap()));
            say(format!("V {}", serde_json::to_string(&rp).unwrap()));
            return;
        }
        k += step;
        if last.elapsed() > Duration::from_millis(500) {
            say(format!("S {}", serde_json::to_string(&d).unwrap()));
            d = Delta::default();
            last = Instant::now();
        }
    }
    say(format!("S {}", serde_json::to_string(&d).unwrap()));
    say("E".to_string());
}

/// one <id> <seed> <run> <log>: one run, every operation written down before it is executed.
pub fn one(f: &'static str, seed: u64, k: u64, log: &str) {
    watchdog();
    let mut file = std::fs::File::create(log).expect("log");
    *crate::press::PHASES.lock().unwrap() = file.try_clone().ok();
    let mut r = crate::rng::Rng::new(sched::seed_of(seed, f, k));
    let d = sched::deal(&mut r, f);
    writeln!(file, "{}", serde_json::to_string(&(&d.cfg, &d.init)).unwrap()).unwrap();
    let run = sched::simulate(sched::seed_of(seed, f, k), f, &mut |o| {
        PROGRESS.fetch_add(1, Ordering::Relaxed);
        writeln!(file, "{}", serde_json::to_string(o).unwrap()).unwrap();
    });
    println!("DONE {}", run.digest);
}

/// exec <file>: replay in this process.
pub fn exec(path: &str) {
    watchdog();
    let rp = load(path);
    let f = focus(&rp.property).expect("property");
    for k in &rp.before {
        sched::simulate(sched::seed_of(rp.seed, f, *k), f, &mut |_| {
            PROGRESS.fetch_add(1, Ordering::Relaxed);
        });
    }
    match shrink::outcome(&rp.trace(), f) {
        Some(v) => println!("HIT {}", serde_json::to_string(&v).unwrap()),
        None => println!("NONE"),
    }
}

fn load(path: &str) -> Replay {
    let b = match std::fs::read(path) {
        Ok(b) => b,
        Err(e) => {
            eprintln!("cannot read {}: {}", path, e);
            std::process::exit(2);
        }
    };
    match serde_json::from_slice(&b) {
        Ok(r) => r,
        Err(e) => {
            eprintln!("{} is not a replay file: {}", path, e);
            std::process::exit(2);
        }
    }
}

enum End {
    Hit(Violation),
    Nothing,
    Died(String),
    Panicked,
}

/// Replay a file in a fresh process.
fn fresh(path: &str, patience: u64) -> End {
    let mut c = limited(&["exec".to_string(), path.to_string()]);
    c.env("PMSIM_PATIENCE", patience.to_string());
    let out = match c.stdout(Stdio::piped()).output() {
        Ok(o) => o,
        Err(_) => return End::Panicked,
    };
    let text = String::from_utf8_lossy(&out.stdout).to_string();
    for l in text.lines() {
        if let Some(j) = l.strip_prefix("HIT ") {
            if let Ok(v) = serde_json::from_str(j) {
                return End::Hit(v);
            }
        }
        if l == "NONE" {
            return End::Nothing;
        }
    }
    match out.status.code() {
        Some(HUNG) => End::Died("hangs".to_string()),
        Some(101) | Some(2) => End::Panicked,
        Some(c) => End::Died(format!("ends the process (exit code {})", c)),
        None => End::Died("brings the process down".to_string()),
    }
}

fn death_tags(op: Option<&Op>) -> Vec<String> {
    use crate::probe::What;
    if let Some(Act::Publish { .. }) = op.map(|o| &o.act) {
        return vec!["C14".to_string(), "C15".to_string()];
    }
    let t = match op.map(|o| &o.act) {
        Some(Act::Malformed { .. }) => "C17",
        Some(Act::Probe { what, .. }) => match what {
            What::Positions => "C10",
            What::Views => "C12",
            What::Fit => "C13",
            What::Streams => "C11",
            What::Twin => "C01",
            What::Sets => "C06",
            What::Parts => "C18",
            What::Peer => "C19",
        },
        _ => "C03",
    };
    vec![t.to_string()]
}

/// A run that took its process down: find out at which operation.
fn post_mortem(f: &'static str, seed: u64, k: u64, dir: &str) -> Option<Replay> {
    let log = format!("{}/run-{}.log", dir, k);
    let out = limited(&[
        "one".to_string(),
        f.to_string(),
        seed.to_string(),
        k.to_string(),
        log.clone(),
    ])
    .stdout(Stdio::piped())
    .output()
    .ok()?;
    if out.status.code() == Some(101) || out.status.success() {
        return None;
    }
    let how = match out.status.code() {
        Some(HUNG) => "hangs",
        _ => "brings the process down",
    };
    let text = std::fs::read_to_string(&log).ok()?;
    let mut lines = text.lines();
    let (config, init): (Config, Vec<MNode>) = serde_json::from_str(lines.next()?).ok()?;
    let ops: Vec<Op> = lines.filter_map(|l| serde_json::from_str(l).ok()).collect();
    let last = ops.last();
    let mut tags = death_tags(last);
    if tags.len() > 1 {
        // how far the publication had come
        match text.lines().last() {
            Some("#exporting") => tags = vec!["C14".to_string()],
            Some("#importing") => tags = vec!["C15".to_string()],
            Some("#reimporting") => {}
            Some("#imported") => tags = vec!["C15".to_string()],
            // the harness itself
            _ => return None,
        }
    }
    let violation = Violation {
        kind: format!("the library {}", how),
        tags,
        detail: format!(
            "the library {} in operation {}",
            how,
            cut(&last.map(|o| serde_json::to_string(o).unwrap_or_default()).unwrap_or_default(), 1500)
        ),
        op: last.map(|o| o.id).unwrap_or(0),
    };
    Some(Replay {
        property: f.to_string(),
        seed,
        run: k,
        run_seed: sched::seed_of(seed, f, k),
        violation,
        shrunk_from: ops.len(),
        config,
        init,
        ops,
        note: None,
                before: vec![],
    })
}

// ---------------------------------------------------------------- the check

enum Msg {
    Line(usize, String),
    Gone(usize, Option<i32>),
}

fn spawn(i: usize, f: &str, seed: u64, first: u64, end: u64, tx: &mpsc::Sender<Msg>) -> Child {
    let mut c = limited(&[
        "worker".to_string(),
        f.to_string(),
        seed.to_string(),
        first.to_string(),
        WORKERS.to_string(),
        end.to_string(),
    ]);
    let mut child = c.stdout(Stdio::piped()).spawn().expect("worker");
    let out = child.stdout.take().unwrap();
    let tx = tx.clone();
    std::thread::spawn(move || {
        let r = BufReader::new(out);
        for l in r.lines() {
            match l {
                Ok(l) => {
                    if tx.send(Msg::Line(i, l)).is_err() {
                        return;
                    }
                }
                Err(_) => break,
            }
        }
        let _ = tx.send(Msg::Gone(i, None));
    });
    child
}

struct W {
    child: Child,
    at: u64,
    done: bool,
}

static STOP: AtomicBool = AtomicBool::new(false);

pub fn check(f: &'static str) -> i32 {
    let t0 = Instant::now();
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(1);
    let thorough = std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false);
    let get = |n: &str| std::env::var(n).ok().and_then(|s| s.parse::<u64>().ok());
    let runs = get("PMSIM_RUNS").unwrap_or(if thorough { u64::MAX / 2 } else { 40_000 });
    let budget = Duration::from_secs(get("PMSIM_SECONDS").unwrap_or(if thorough { 600 } else { 100 }));
    let root = std::env::var("PMSIM_OUT").unwrap_or_else(|_| "/verif".to_string());
    let scratch = format!("{}/replays/.work-{}-{}", root, f, std::process::id());
    for d in [format!("{}/evidence", root), scratch.clone()] {
        if let Err(e) = std::fs::create_dir_all(&d) {
            eprintln!("{}: {}", d, e);
            return 2;
        }
    }
    let (tx, rx) = mpsc::channel();
    let mut ws: Vec<W> = (0..WORKERS as usize)
        .map(|i| W {
            child: spawn(i, f, seed, i as u64, runs, &tx),
            at: i as u64,
            done: false,
        })
        .collect();
    let mut all = Delta::default();
    let mut schedules: HashSet<u64> = HashSet::new();
    let mut docs = Kmv::default();
    let mut digests: BTreeMap<u64, u64> = BTreeMap::new();
    let mut best: Option<Replay> = None;
    let mut best_run = u64::MAX;
    let mut deaths = 0u64;
    let mut harness = vec![];
    while ws.iter().any(|w| !w.done) {
        if t0.elapsed() > budget {
            STOP.store(true, Ordering::Relaxed);
        }
        let m = match rx.recv_timeout(Duration::from_millis(200)) {
            Ok(m) => m,
            Err(mpsc::RecvTimeoutError::Timeout) => {
                if t0.elapsed() > budget + Duration::from_secs(2) {
                    for w in ws.iter_mut().filter(|w| !w.done) {
                        let _ = w.child.kill();
                    }
                }
                continue;
            }
            Err(_) => break,
        };
        match m {
            Msg::Line(i, l) => {
                if ws[i].done {
                    continue;
                }
                let (tag, rest) = l.split_at(l.len().min(2));
                match tag {
                    "B " => {
                        let k = rest.parse().unwrap_or(0);
                        ws[i].at = k;
                        if k > best_run || STOP.load(Ordering::Relaxed) {
                            ws[i].done = true;
                            let _ = ws[i].child.kill();
                        }
                    }
                    "D " => {
                        let mut p = rest.split(' ');
                        if let (Some(a), Some(b)) = (p.next(), p.next()) {
                            digests.insert(a.parse().unwrap_or(0), b.parse().unwrap_or(0));
                        }
                    }
                    "S " => {
                        if let Ok(d) = serde_json::from_str::<Delta>(rest) {
                            all.runs += d.runs;
                            all.ops += d.ops;
                            all.sim_us += d.sim_us;
                            all.settled += d.settled;
                            all.versions += d.versions;
                            schedules.extend(d.schedules);
                            for h in d.docs {
                                docs.add(h);
                            }
                            for (a, b) in d.cov {
                                *all.cov.entry(a).or_insert(0) += b;
                            }
                            for (a, b) in d.foreign {
                                *all.foreign.entry(a).or_insert(0) += b;
                            }
                            all.samples.extend(d.samples);
                        }
                    }
                    "V " => {
                        if let Ok(r) = serde_json::from_str::<Replay>(rest) {
                            if r.run < best_run {
                                best_run = r.run;
                                best = Some(r);
                            }
                        }
                        ws[i].done = true;
                        let _ = ws[i].child.wait();
                    }
                    _ => {
                        if l == "E" {
                            ws[i].done = true;
                            let _ = ws[i].child.wait();
                        }
                    }
                }
            }
            Msg::Gone(i, _) => {
                if ws[i].done {
                    let _ = ws[i].child.wait();
                    continue;
                }
                let st = ws[i].child.wait().ok();
                let k = ws[i].at;
                if STOP.load(Ordering::Relaxed) || k > best_run {
                    ws[i].done = true;
                    continue;
                }
                let code = st.and_then(|s| s.code());
                let dead = if code == Some(101) {
                    harness.push(k);
                    None
                } else {
                    deaths += 1;
                    post_mortem(f, seed, k, &scratch)
                };
                match dead {
                    Some(r) if r.violation.tags.iter().any(|t| t == f) => {
                        if k < best_run {
                            best_run = k;
                            best = Some(r);
                        }
                        ws[i].done = true;
                    }
                    other => {
                        if let Some(r) = other {
                            let what = format!("{} {:?} (run {})", r.violation.kind, r.violation.tags, k);
                            *all.foreign.entry(what).or_insert(0) += 1;
                        } else if code != Some(101) {
                            harness.push(k);
                        }
                        if deaths > 40 || harness.len() > 40 || k + WORKERS >= runs {
                            ws[i].done = true;
                        } else {
                            ws[i].child = spawn(i, f, seed, k + WORKERS, runs, &tx);
                            ws[i].at = k + WORKERS;
                        }
                    }
                }
            }
        }
    }
    for w in ws.iter_mut() {
        let _ = w.child.kill();
        let _ = w.child.wait();
    }
    let explore_s = t0.elapsed().as_secs_f64();
    let mut code = 0;
    let mut replay_path = None;
    if let Some(r) = best.take() {
        let path = format!("{}/replays/{}-{}-{}.json", root, f, seed, r.run);
        report(f, r, &path, &scratch);
        replay_path = Some(path);
        code = 1;
    }
    let again = if code == 0 { recheck(f, seed, &digests) } else { (0, 0) };
    evidence(Facts {
        f,
        seed,
        thorough,
        root: &root,
        explore_s,
        t0,
        all: &all,
        schedules: schedules.len(),
        docs: docs.estimate(),
        deaths,
        harness: &harness,
        again,
        replay: replay_path.as_deref(),
    });
    let _ = std::fs::remove_dir_all(&scratch);
    crate::known::print(f);
    println!(
        "{}: {} runs, {} operations, {} distinct schedules, {:.1} s",
        f,
        all.runs,
        all.ops,
        schedules.len(),
        t0.elapsed().as_secs_f64()
    );
    if !all.foreign.is_empty() {
        println!("{}: seen on the way, other properties' business: {:?}", f, all.foreign);
    }
    if let Some(p) = replay_path {
        println!("VIOLATION property={} replay={}", f, p);
        return 1;
    }
    if code == 0 && !harness.is_empty() {
        println!("{}: the harness itself failed in runs {:?}", f, harness);
        code = 2;
    }
    if code == 0 && all.runs == 0 {
        println!("{}: nothing was run", f);
        code = 2;
    }
    code
}

fn shrinking(default: u64) -> Duration {
    let s = std::env::var("PMSIM_SHRINK").ok().and_then(|s| s.parse().ok());
    Duration::from_secs(s.unwrap_or(default))
}

/// Minimise, write the replay file and see whether a fresh process finds the same again.
fn report(f: &'static str, mut r: Replay, path: &str, scratch: &str) {
    let _ = std::fs::create_dir_all(std::path::Path::new(path).parent().unwrap());
    let original = r.clone();
    let save = |r: &Replay, p: &str| {
        let _ = std::fs::write(p, serde_json::to_vec_pretty(r).unwrap());
    };
    let tmp = format!("{}/cand.json", scratch);
    if r.violation.kind.starts_with("the library hangs") || r.violation.kind.starts_with("the library brings") {
        let kind = r.violation.kind.clone();
        let base = r.clone();
        let t = shrink::shrink(r.trace(), shrinking(60), &mut |t| {
            let mut c = base.clone();
            c.config = t.cfg.clone();
            c.init = t.init.clone();
            c.ops = t.ops.clone();
            save(&c, &tmp);
            match fresh(&tmp, 3) {
                End::Died(how) => {
                    kind.contains(&how)
                        && death_tags(t.ops.last()).iter().any(|x| x == f)
                }
                _ => false,
            }
        });
        r.config = t.cfg;
        r.init = t.init;
        r.ops = t.ops;
    } else {
        // in a process of its own: a candidate may do worse than the original
        save(&r, &tmp);
        let small = format!("{}/small.json", scratch);
        let _ = limited(&["shrink".to_string(), tmp.clone(), small.clone()])
            .stdout(Stdio::null())
            .status();
        if let Ok(b) = std::fs::read(&small) {
            if let Ok(x) = serde_json::from_slice::<Replay>(&b) {
                r = x;
            }
        }
    }
    save(&r, path);
    if !same(&r, path) {
        r = original;
        save(&r, path);
        // The library may keep something between runs: execute those the worker had made before, too.
        let t0 = Instant::now();
        let earlier: Vec<u64> = (0..r.run).rev().filter(|k| k % WORKERS == r.run % WORKERS).collect();
        let mut n = 1;
        let mut found = false;
        while !found && r.before.len() < earlier.len() && t0.elapsed() < Duration::from_secs(60) {
            r.before = earlier.iter().take(n).rev().copied().collect();
            save(&r, path);
            found = same(&r, path);
            n *= 4;
        }
        if !found {
            r.before.clear();
            r.note = Some("a fresh process does not repeat this: the code under test does not behave the same twice".to_string());
            save(&r, path);
        }
    }
    println!("{}: {}", f, r.violation.kind);
    println!("{}", r.violation.detail);
    println!(
        "{}: seed {} run {}: {} operations, minimised from {}",
        f,
        r.seed,
        r.run,
        r.ops.len(),
        r.shrunk_from
    );
    if let Some(n) = &r.note {
        println!("{}", n);
    }
}

fn same(r: &Replay, path: &str) -> bool {
    match fresh(path, 20) {
        End::Hit(v) => v == r.violation,
        End::Died(how) => r.violation.kind.contains(&how),
        _ => false,
    }
}

/// shrink <in> <out>
pub fn shrink_file(a: &str, b: &str) {
    watchdog();
    let mut r = load(a);
    let f = focus(&r.property).expect("property");
    let kind = r.violation.kind.clone();
    let t = shrink::shrink(r.trace(), shrinking(40), &mut |t| {
        PROGRESS.fetch_add(1, Ordering::Relaxed);
        matches!(shrink::outcome(t, f), Some(v) if v.kind == kind)
    });
    if let Some(v) = shrink::outcome(&t, f) {
        r.violation = v;
        r.config = t.cfg;
        r.init = t.init;
        r.ops = t.ops;
        let _ = std::fs::write(b, serde_json::to_vec_pretty(&r).unwrap());
    }
}

/// replay <file>: exit 1 when the file's violation happens again, exactly.
pub fn replay(path: &str) -> i32 {
    let r = load(path);
    match fresh(path, 20) {
        End::Hit(v) => {
            println!("{} in operation {}\n{}", v.kind, v.op, v.detail);
            if v == r.violation {
                println!("VIOLATION property={} replay={}", r.property, path);
                1
            } else {
                println!("another violation than the file describes: {}", r.violation.kind);
                2
            }
        }
        End::Died(how) => {
            println!("the library {}", how);
            if r.violation.kind.contains(&how) {
                println!("VIOLATION property={} replay={}", r.property, path);
                1
            } else {
                2
            }
        }
        End::Nothing => {
            println!("no violation");
            0
        }
        End::Panicked => {
            println!("the replay cannot be executed");
            2
        }
    }
}

/// Some of the runs once more, in this process: the same seed must be the same execution.
fn recheck(f: &'static str, seed: u64, digests: &BTreeMap<u64, u64>) -> (u64, u64) {
    let mut n = 0;
    let mut differ = 0;
    for (k, d) in digests.iter().take(24) {
        let s = sched::seed_of(seed, f, *k);
        let r = crate::bridge::guard(|| crate::bridge::unguarded(|| sched::simulate(s, f, &mut |_| {})));
        n += 1;
        if r.map(|r| r.digest) != Ok(*d) {
            differ += 1;
        }
    }
    (n, differ)
}

struct Facts<'a> {
    f: &'static str,
    seed: u64,
    thorough: bool,
    root: &'a str,
    explore_s: f64,
    t0: Instant,
    all: &'a Delta,
    schedules: usize,
    docs: u64,
    deaths: u64,
    harness: &'a [u64],
    again: (u64, u64),
    replay: Option<&'a str>,
}

fn evidence(x: Facts) {
    let pick = |p: &str| -> BTreeMap<String, u64> {
        x.all
            .cov
            .iter()
            .filter_map(|(a, b)| a.strip_prefix(p).map(|a| (a.to_string(), *b)))
            .collect()
    };
    let names = relevant(x.f);
    let rest: BTreeMap<String, u64> = x
        .all
        .cov
        .iter()
        .filter(|(a, _)| {
            !a.starts_with("fault.") && a.as_str() != "settled" && !names.contains(&a.as_str())
        })
        .map(|(a, b)| (a.clone(), *b))
        .collect();
    let h = x.explore_s.max(0.001) / 3600.0;
    let rule = format!(
        "One evaluation is one simulated run: its seed deals a topology, a first document, user behaviour, fault rates and a schedule, which are then executed against the real library. A run is non-trivial when at least one step was committed and at least one of the counters {:?} is above zero; two runs are the same when their schedules are: the sequence of operation kinds with the parties, messages and versions they concern.",
        names
    );
    let v = json!({
        "property": x.f,
        "tier": if x.thorough { "thorough" } else { "quick" },
        "seed": x.seed,
        "level": "exploration",
        "coverage": {
            "evaluations": x.all.runs,
            "distinct_nontrivial": x.schedules,
            "rule": rule,
            "samples": x.all.samples,
            "property_evaluations": names.iter().map(|n| (n.to_string(), x.all.cov.get(*n).copied().unwrap_or(0))).collect::<BTreeMap<_, _>>(),
            "operations_executed": x.all.ops,
            "versions_committed": x.all.versions.saturating_sub(x.all.runs),
            "runs_that_settled_after_faults_stopped": x.all.settled,
            "runs_per_hour_each_with_its_own_seed": (x.all.runs as f64 / h) as u64,
            "simulated_seconds": x.all.sim_us / 1_000_000,
            "faults_injected": pick("fault."),
            "checks_and_events": rest,
            "distinct_documents_estimate": x.docs,
            "distinct_documents_measure": "documents by content hash over all parties and versions, k-minimum-values estimate with k = 2048 (standard error about 2 %), exact below 2048",
            "worker_processes": WORKERS,
            "runs_that_ended_a_worker": x.deaths,
            "harness_failures": x.harness,
            "runs_executed_twice": x.again.0,
            "runs_that_differed_the_second_time": x.again.1,
            "violations_of_other_properties_seen": x.all.foreign,
            "real_code": ["prosemirror: model, markdown schema, transform (decoding, encoding, resolving, cutting, replacing, marking, applying) in every party", "serde_json readers and writers"],
            "simulated": ["network", "disk (page-less files with synced and unsynced parts)", "clocks and timers", "process crashes and restarts", "users", "the authority's and clients' service loop around the library"],
            "replay": x.replay,
        },
        "assumptions": [
            "the reference model in sim/src/model.rs states the schema and the replace rules as the markdown schema of prosemirror does",
            "documents up to a few hundred tokens, up to four editors and two followers, runs of up to 300 operations",
            "the code under test is deterministic and single-threaded, as it is on the unchanged tree"
        ],
        "wall_s": x.t0.elapsed().as_secs_f64(),
        "violations": if x.replay.is_some() { 1 } else { 0 },
    });
    let _ = std::fs::write(
        format!("{}/evidence/{}.json", x.root, x.f),
        serde_json::to_vec_pretty(&v).unwrap(),
    );
}
