//! The scheduler: simulated time, latencies, faults and users. Everything it decides comes from one
//! seed and is written into the operations, which alone drive the world.

use crate::disk::DiskFault;
use crate::gen::{self, Taste, INTENTS};
use crate::json::Dialect;
use crate::model::*;
use crate::probe::What;
use crate::rng::{splitmix, Hash64, Rng};
use crate::world::*;
use std::cmp::Reverse;
use std::collections::{BTreeMap, BinaryHeap};

/// How a run is dealt: rates in per mille, times in microseconds.
#[derive(Clone, Debug)]
pub struct Deal {
    pub cfg: Config,
    pub init: Vec<MNode>,
    pub ops: usize,
    think: usize,
    burst: usize,
    latency: usize,
    jitter: usize,
    loss: usize,
    dup: usize,
    corrupt: usize,
    slow: usize,
    nemesis_every: usize,
    nemesis: [usize; 9],
    probe_every: usize,
    /// 0: never
    publish_every: usize,
    /// 0: never
    malformed_every: usize,
    probes: [usize; 8],
    snapshot_every: usize,
    rto: usize,
    pull_every: usize,
    hold: usize,
}

const NEMESIS: [&str; 9] = [
    "partition",
    "stall",
    "clock",
    "client crash",
    "authority crash",
    "disk",
    "hostile",
    "isolate",
    "stale bytes",
];

fn boost(intents: &mut [usize], names: &[&str], w: usize) {
    for (i, n) in INTENTS.iter().enumerate() {
        if names.contains(n) {
            intents[i] += w;
        }
    }
}

pub fn deal(r: &mut Rng, focus: &str) -> Deal {
    let mut intents: Vec<usize> = INTENTS
        .iter()
        .map(|_| if r.pm(350) { 0 } else { 1 + r.below(8) })
        .collect();
    boost(&mut intents, &["insert text", "delete"], 2);
    match focus {
        "C06" => boost(&mut intents, &["add mark", "remove mark"], 14),
        "C07" => boost(
            &mut intents,
            &[
                "wrap",
                "lift",
                "partial lift",
                "set block type",
                "sink",
                "retype container",
                "random around",
                "spliced around",
            ],
            8,
        ),
        "C08" => boost(
            &mut intents,
            &[
                "random structural",
                "structural on boundary",
                "join",
                "split",
                "lift",
                "wrap",
                "sink",
            ],
            8,
        ),
        "C20" => boost(
            &mut intents,
            &[
                "random replace",
                "random around",
                "spliced around",
                "random structural",
                "deep paste",
                "delete",
                "set block type",
                "retype container",
            ],
            6,
        ),
        "C04" => boost(
            &mut intents,
            &["delete", "join", "add mark", "remove mark", "deep paste", "paste"],
            5,
        ),
        "C05" => boost(
            &mut intents,
            &["paste", "deep paste", "random replace", "split", "join", "delete"],
            6,
        ),
        _ => {}
    }
    let small = r.pm(400);
    let taste = Taste {
        alphabet: r.weighted(&[3, 4, 3, 3, 2]) as u8,
        intents,
        marked: *r.pick(&[0, 200, 500, 900]),
        max_len: if small { r.range(12, 50) } else { r.range(50, 220) },
        max_depth: r.range(2, 7),
    };
    let clients = r.range(1, 4);
    let cfg = Config {
        clients,
        followers: r.below(3),
        blind: r.pm(350),
        reencode: r.coin(),
        always_rollback: r.pm(if focus == "C09" { 500 } else { 250 }),
        sync_every: r.range(1, 6),
        adopt_hostile: r.pm(400),
        foreign_docs: r.coin(),
        max_pending: r.range(1, 6),
        taste,
    };
    let init = loop {
        let depth = r.below(4).min(cfg.taste.max_depth);
        let max = r.range(1, 4);
        let b = gen::blocks(r, &cfg.taste, depth, max);
        let t = toks_of(&b);
        if t.len() <= cfg.taste.max_len && max_depth(&t) <= cfg.taste.max_depth + 1 {
            debug_assert!(check_valid(&t).is_ok());
            break b;
        }
    };
    // some documents are much longer, wider or deeper
    let (mut cfg, mut init) = (cfg, init);
    let vast = match r.below(2000) {
        0..=73 => r.range(260, 1500),
        74..=85 => r.range(1500, 6000),
        86..=88 => r.range(6000, 20_000),
        89..=90 => r.range(65_500, 66_500),
        _ => 0,
    };
    if vast > 0 {
        let more = gen::vast(r, &cfg.taste, vast);
        let at = r.below(init.len() + 1);
        init.insert(at, more);
        let t = toks_of(&init);
        debug_assert!(check_valid(&t).is_ok());
        cfg.taste.max_len = t.len() + 50;
        cfg.taste.max_depth = cfg.taste.max_depth.max(max_depth(&t) + 1);
    }
    let on = |r: &mut Rng, pm: usize, v: usize| if r.pm(pm) { v } else { 0 };
    let mut nemesis = [0usize; 9];
    for n in nemesis.iter_mut() {
        *n = on(r, 550, 1) * (1 + r.below(6));
    }
    if focus == "C02" {
        nemesis[4] += 6;
        nemesis[5] += 6;
    }
    if focus == "C03" {
        nemesis[6] += 12;
        nemesis[8] += 4;
    }
    if matches!(focus, "C05" | "C07" | "C08") {
        nemesis[6] += 4;
    }
    if focus == "C20" {
        nemesis[6] += 8;
        nemesis[8] += 4;
    }
    let calm = r.pm(80);
    if calm {
        nemesis = [0; 9];
    }
    let (l, d, c) = (r.range(10, 250), r.range(10, 200), r.range(10, 150));
    let mut probes = [1, 1, 1, 1, 1, 1, 1, 1];
    let mut probe_every = *r.pick(&[100_000usize, 300_000, 1_000_000]);
    match focus {
        "C10" => probes[0] = 12,
        "C12" => probes[1] = 12,
        "C13" => probes[2] = 12,
        "C11" => probes[3] = 12,
        "C01" => probes[4] = 3,
        "C05" => probes[6] = 6,
        "C20" => {
            probes[0] = 3;
            probes[1] = 3;
            probes[6] = 6;
        }
        "C06" => probes[5] = 6,
        "C18" => probes[6] = 12,
        "C19" => probes[7] = 12,
        _ => {}
    }
    if matches!(focus, "C10" | "C11" | "C12" | "C13" | "C18" | "C19") {
        probe_every = 40_000;
    }
    let publish_every = match focus {
        "C14" | "C15" => 20_000,
        _ if r.pm(150) => 400_000,
        _ => 0,
    };
    let malformed_every = match focus {
        "C17" => 30_000,
        _ if r.pm(100) => 400_000,
        _ => 0,
    };
    Deal {
        publish_every,
        malformed_every,
        init,
        ops: if vast > 1500 { 30 } else { *r.pick(&[40, 80, 80, 160, 160, 300]) },
        think: *r.pick(&[20_000, 60_000, 200_000]),
        burst: r.range(1, 4),
        latency: *r.pick(&[1_000, 10_000, 60_000]),
        jitter: *r.pick(&[1_000, 20_000, 200_000]),
        loss: if calm { 0 } else { on(r, 500, l) },
        dup: if calm { 0 } else { on(r, 500, d) },
        corrupt: if calm { 0 } else { on(r, 400, c) },
        slow: on(r, 400, 60),
        nemesis_every: *r.pick(&[60_000, 200_000, 600_000]),
        nemesis,
        probe_every,
        probes,
        snapshot_every: *r.pick(&[200_000, 800_000, 3_000_000]),
        rto: *r.pick(&[50_000, 150_000, 500_000]),
        pull_every: *r.pick(&[100_000, 400_000]),
        hold: r.below(400),
        cfg,
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
enum Ev {
    Think(usize),
    Arrive(u64, u8),
    Retry(usize),
    Poll(usize),
    Nemesis,
    Probe,
    Publish,
    Malformed,
    Snapshot,
    Restart,
    Back(usize),
    Heal(usize),
}

pub struct Run {
    pub cfg: Config,
    pub init: Vec<MNode>,
    pub ops: Vec<Op>,
    pub hit: Option<Violation>,
    pub sim_us: u64,
    pub schedule: u64,
    pub digest: u64,
    pub cov: BTreeMap<&'static str, u64>,
    pub foreign: BTreeMap<String, u64>,
    pub doc_hashes: Vec<u64>,
    pub settled: bool,
    pub versions: usize,
    pub violations: Vec<Violation>,
}

pub fn seed_of(base: u64, focus: &str, run: u64) -> u64 {
    let mut h = Hash64::new();
    h.add(base);
    h.bytes(focus.as_bytes());
    h.add(run);
    let mut x = h.0;
    splitmix(&mut x)
}

struct Sim<'a> {
    w: World,
    d: &'a Deal,
    r: Rng,
    q: BinaryHeap<Reverse<(u64, u64, Ev)>>,
    now: u64,
    no: u64,
    ops: Vec<Op>,
    next_id: u64,
    /// until when a link between a client and the authority is cut
    cut: Vec<u64>,
    /// until when a node (0 the authority) does nothing
    stalled: Vec<u64>,
    /// offset and drift (per mille) of a client's clock
    skew: Vec<(i64, u64)>,
    last_send: Vec<i64>,
    sched: Hash64,
    log: &'a mut dyn FnMut(&Op),
    seen_bytes: Vec<std::rc::Rc<Vec<u8>>>,
    restart_due: bool,
}

pub fn simulate(seed: u64, focus: &'static str, log: &mut dyn FnMut(&Op)) -> Run {
    let mut r = Rng::new(seed);
    let d = deal(&mut r, focus);
    simulate_deal(&d, r, focus, log)
}

fn simulate_deal(d: &Deal, r: Rng, focus: &'static str, log: &mut dyn FnMut(&Op)) -> Run {
    crate::clock::begin();
    let w = World::new(d.cfg.clone(), focus, &d.init);
    let n = w.clients.len();
    let mut s = Sim {
        w,
        d,
        r,
        q: BinaryHeap::new(),
        now: 0,
        no: 0,
        ops: vec![],
        next_id: 1,
        cut: vec![0; n],
        stalled: vec![0; n + 1],
        skew: vec![(0, 1000); n],
        last_send: vec![0; n],
        sched: Hash64::new(),
        log,
        seen_bytes: vec![],
        restart_due: false,
    };
    s.go();
    finish(s.w, d.cfg.clone(), d.init.clone(), s.ops, s.now, s.sched.0)
}

/// Execute recorded operations.
pub fn replay(cfg: &Config, init: &[MNode], ops: &[Op], focus: &'static str) -> Run {
    crate::clock::begin();
    let mut w = World::new(cfg.clone(), focus, init);
    let mut done = vec![];
    let mut now = 0;
    for op in ops {
        if w.stop {
            break;
        }
        now = op.t;
        w.exec(op);
        done.push(op.clone());
    }
    finish(w, cfg.clone(), init.to_vec(), done, now, 0)
}

fn finish(mut w: World, cfg: Config, init: Vec<MNode>, ops: Vec<Op>, now: u64, schedule: u64) -> Run {
    let (clock, bytes) = crate::clock::asked();
    w.count_n("library asked for the time", clock);
    w.count_n("library asked for random bytes", bytes);
    let mut h = Hash64::new();
    for v in &w.history {
        h.bytes(&v.json);
    }
    for (k, v) in &w.cov {
        h.bytes(k.as_bytes());
        h.add(*v);
    }
    for v in &w.violations {
        h.bytes(v.detail.as_bytes());
    }
    h.add(ops.len() as u64);
    Run {
        cfg,
        init,
        ops,
        hit: w.hit,
        sim_us: now,
        schedule,
        digest: h.0,
        cov: w.cov,
        foreign: w.foreign,
        versions: w.history.len(),
        doc_hashes: w.doc_hashes,
        settled: w.settled,
        violations: w.violations,
    }
}

impl<'a> Sim<'a> {
    fn at(&mut self, t: u64, e: Ev) {
        self.no += 1;
        self.q.push(Reverse((t, self.no, e)));
    }

    fn after(&mut self, mean: usize, e: Ev) {
        let dt = self.r.range(mean / 4, mean * 2) as u64;
        let t = self.now + dt.max(1);
        self.at(t, e);
    }

    fn act(&mut self, act: Act) {
        if self.w.stop {
            return;
        }
        // a signature of the schedule: what happened, to whom, in which order
        let sig: u64 = match &act {
            Act::Edit { c, intent, .. } => 1 + (*c as u64) * 64 + (*intent as u64) * 1024,
            Act::Send { c } => 2 + *c as u64 * 64,
            Act::Pull { c } => 3 + *c as u64 * 64,
            Act::Join { c } => 4 + *c as u64 * 64,
            Act::Deliver { m } | Act::Garble { m, .. } | Act::Lose { m } => {
                let k = match act {
                    Act::Deliver { .. } => 5,
                    Act::Garble { .. } => 6,
                    _ => 7,
                };
                match self.w.msgs.get(m) {
                    Some(x) => {
                        k + 64 * (x.from as u64 * 8 + x.to as u64)
                            + 8192
                                * match x.body {
                                    Body::Submit { seq, .. } => 16 + seq as u64,
                                    Body::Pull { .. } => 1,
                                    Body::Join => 2,
                                    Body::Steps { base, .. } => 16 + base as u64,
                                    Body::Doc { .. } => 3,
                                    Body::Reject { .. } => 4,
                                }
                    }
                    None => k,
                }
            }
            Act::Note { what } => 8 + what.len() as u64 * 64,
            Act::CrashClient { c } => 9 + *c as u64 * 64,
            Act::CrashAuthority { .. } => 10,
            Act::Restart { .. } => 11,
            Act::Snapshot { .. } => 12,
            Act::Fault { .. } => 13,
            Act::Hostile { .. } => 14,
            Act::Probe { who, what, .. } => 15 + *who as u64 * 64 + (*what as u64) * 1024,
            Act::Settle { .. } => 16,
            Act::Malformed { steps, .. } => 18 + steps.len() as u64 * 64,
            Act::Publish { who, adopt, .. } => 17 + *who as u64 * 64 + *adopt as u64 * 1024,
        };
        self.sched.add(sig);
        let op = Op {
            id: self.next_id,
            t: self.now,
            act,
        };
        self.next_id += 1;
        (self.log)(&op);
        self.w.exec(&op);
        self.ops.push(op);
        if self.w.stop {
            return;
        }
        let out = std::mem::take(&mut self.w.out);
        for m in out {
            self.route(m);
        }
        if !self.w.auth.up && !self.restart_due {
            self.restart_due = true;
            let dt = *self.r.pick(&[20_000u64, 100_000, 500_000]);
            let t = self.now + dt;
            self.at(t, Ev::Restart);
        }
    }

    fn client_of(m: &Msg) -> usize {
        if m.from == 0 {
            m.to - 1
        } else {
            m.from - 1
        }
    }

    fn route(&mut self, m: u64) {
        let msg = self.w.msgs[&m].clone();
        let c = Self::client_of(&msg);
        let bytes = match &msg.body {
            Body::Submit { bytes, .. } => Some(bytes.clone()),
            Body::Steps { items, .. } => items.first().map(|i| i.bytes.clone()),
            _ => None,
        };
        if let Some(b) = bytes {
            if self.seen_bytes.len() < 40 {
                self.seen_bytes.push(b);
            } else {
                let i = self.r.below(40);
                self.seen_bytes[i] = b;
            }
        }
        if self.cut[c] > self.now || self.r.pm(self.d.loss) {
            self.act(Act::Lose { m });
            return;
        }
        let copies = if self.r.pm(self.d.dup) { 2 } else { 1 };
        if copies == 2 {
            self.act(Act::Note {
                what: format!("duplicate message {}", m),
            });
        }
        for _ in 0..copies {
            let mut dt = self.d.latency + self.r.below(self.d.jitter);
            if self.r.pm(self.d.slow) {
                dt *= 20;
            }
            let damaged = u8::from(self.r.pm(self.d.corrupt));
            let t = self.now + dt as u64;
            self.at(t, Ev::Arrive(m, damaged));
        }
    }

    fn local(&self, c: usize) -> i64 {
        let (o, d) = self.skew[c];
        (self.now * d / 1000) as i64 + o
    }

    fn send(&mut self, c: usize) {
        if !self.w.clients[c].pending.is_empty() || self.w.clients[c].doc.is_none() {
            self.last_send[c] = self.local(c);
            self.act(Act::Send { c });
        }
    }

    fn go(&mut self) {
        let n = self.w.clients.len();
        for c in 0..n {
            self.after(5_000, Ev::Back(c));
            if !self.w.clients[c].follower {
                let think = self.d.think;
                self.after(think, Ev::Think(c));
                let rto = self.d.rto;
                self.after(rto, Ev::Retry(c));
            }
            let pull = self.d.pull_every;
            self.after(pull, Ev::Poll(c));
        }
        if self.d.malformed_every > 0 {
            self.after(self.d.malformed_every, Ev::Malformed);
        }
        if self.d.nemesis.iter().any(|x| *x > 0) {
            self.after(self.d.nemesis_every, Ev::Nemesis);
        }
        self.after(self.d.probe_every, Ev::Probe);
        self.after(self.d.snapshot_every, Ev::Snapshot);
        if self.d.publish_every > 0 {
            self.after(self.d.publish_every, Ev::Publish);
        }
        while let Some(Reverse((t, _, e))) = self.q.pop() {
            self.now = self.now.max(t);
            if self.w.stop || self.ops.len() >= self.d.ops {
                break;
            }
            self.event(e);
        }
        if !self.w.stop {
            let seed = self.r.next();
            self.act(Act::Settle { seed });
        }
    }

    fn event(&mut self, e: Ev) {
        match e {
            Ev::Think(c) => {
                if self.stalled[c + 1] > self.now {
                    let t = self.stalled[c + 1];
                    self.at(t, e);
                    return;
                }
                if self.w.clients[c].doc.is_some() {
                    for _ in 0..1 + self.r.below(self.d.burst) {
                        if self.w.stop
                            || self.w.clients[c].pending.len() >= self.d.cfg.max_pending
                        {
                            break;
                        }
                        let toks = match &self.w.clients[c].doc {
                            Some(d) => d.1.clone(),
                            None => break,
                        };
                        let (intent, step) = gen::edit(&mut self.r, &self.d.cfg.taste, &toks);
                        let dialect = self.r.next();
                        let native = self.r.coin();
                        self.act(Act::Edit {
                            c,
                            intent,
                            step,
                            dialect,
                            native,
                        });
                    }
                    if !self.w.stop && !self.r.pm(self.d.hold) {
                        self.send(c);
                    }
                }
                let think = self.d.think;
                self.after(think, Ev::Think(c));
            }
            Ev::Arrive(m, damaged) => {
                let msg = match self.w.msgs.get(&m) {
                    Some(x) => x.clone(),
                    None => return,
                };
                if self.stalled[msg.to] > self.now {
                    let t = self.stalled[msg.to] + 1 + self.r.below(50) as u64;
                    self.at(t, e);
                    return;
                }
                let c = Self::client_of(&msg);
                if self.cut[c] > self.now {
                    self.act(Act::Lose { m });
                    return;
                }
                if damaged == 1 {
                    let bytes = match &msg.body {
                        Body::Submit { bytes, .. } | Body::Doc { bytes, .. } => {
                            Some((0, bytes.clone()))
                        }
                        Body::Steps { items, .. } if !items.is_empty() => {
                            let i = self.r.below(items.len());
                            Some((i, items[i].bytes.clone()))
                        }
                        _ => None,
                    };
                    if let Some((part, b)) = bytes {
                        let v = gen::corrupt(&mut self.r, &b);
                        self.act(Act::Garble {
                            m,
                            part,
                            bytes: Bytes(v),
                        });
                        return;
                    }
                }
                self.act(Act::Deliver { m });
                if self.w.stop {
                    return;
                }
                if msg.to > 0 && !self.w.clients[c].pending.is_empty() && self.r.pm(700) {
                    self.send(c);
                }
            }
            Ev::Retry(c) => {
                if !self.w.clients[c].pending.is_empty()
                    && self.local(c) - self.last_send[c] >= self.d.rto as i64
                {
                    self.send(c);
                }
                let rto = self.d.rto;
                self.after(rto, Ev::Retry(c));
            }
            Ev::Poll(c) => {
                if self.stalled[c + 1] <= self.now {
                    self.act(Act::Pull { c });
                }
                let pull = self.d.pull_every;
                self.after(pull, Ev::Poll(c));
            }
            Ev::Back(c) => {
                if self.w.clients[c].doc.is_none() {
                    self.act(Act::Join { c });
                }
            }
            Ev::Heal(c) => {
                if self.cut[c] <= self.now {
                    self.act(Act::Note {
                        what: format!("link of client {} heals", c),
                    });
                }
            }
            Ev::Snapshot => {
                if self.w.auth.up {
                    let seed = self.r.next();
                    self.act(Act::Snapshot { seed });
                }
                let every = self.d.snapshot_every;
                self.after(every, Ev::Snapshot);
            }
            Ev::Restart => {
                self.restart_due = false;
                if !self.w.auth.up {
                    let old = self.r.pm(300);
                    let seed = self.r.next();
                    self.act(Act::Restart { old, seed });
                }
            }
            Ev::Probe => {
                let what = crate::probe::ALL[self.r.weighted(&self.d.probes)];
                let who = self.r.below(self.w.clients.len() + 2);
                let seed = self.r.next();
                self.act(Act::Probe { who, what, seed });
                let every = self.d.probe_every;
                self.after(every, Ev::Probe);
            }
            Ev::Publish => {
                let who = self.r.below(self.w.clients.len() + 2);
                let seed = self.r.next();
                let adopt = self.r.pm(150);
                self.act(Act::Publish { who, seed, adopt });
                let every = self.d.publish_every;
                self.after(every, Ev::Publish);
            }
            Ev::Malformed => {
                let t = match self.r.below(3) {
                    0 => self.w.auth.toks.clone(),
                    _ => {
                        let v = self.r.below(self.w.history.len());
                        self.w.history[v].toks.clone()
                    }
                };
                let taste = self.w.cfg.taste.clone();
                let (root, steps) = crate::malformed::make(&mut self.r, &taste, &t);
                let (dialect, seed) = (self.r.next(), self.r.next());
                self.act(Act::Malformed {
                    root,
                    dialect,
                    steps,
                    seed,
                });
                let every = self.d.malformed_every;
                self.after(every, Ev::Malformed);
            }
            Ev::Nemesis => {
                self.nemesis();
                let every = self.d.nemesis_every;
                self.after(every, Ev::Nemesis);
            }
        }
    }

    fn nemesis(&mut self) {
        let n = self.w.clients.len();
        let k = self.r.weighted(&self.d.nemesis);
        let long = *self.r.pick(&[30_000u64, 200_000, 1_500_000]);
        match NEMESIS[k] {
            "partition" => {
                let c = self.r.below(n);
                self.cut[c] = self.now + long;
                self.act(Act::Note {
                    what: format!("partition: client {} is cut off for {} us", c, long),
                });
                let t = self.now + long;
                self.at(t, Ev::Heal(c));
            }
            "isolate" => {
                for c in 0..n {
                    self.cut[c] = self.now + long;
                }
                self.act(Act::Note {
                    what: format!("partition: the authority is cut off for {} us", long),
                });
            }
            "stall" => {
                let x = self.r.below(n + 1);
                self.stalled[x] = self.now + long;
                self.act(Act::Note {
                    what: format!("stall: node {} for {} us", x, long),
                });
            }
            "clock" => {
                let c = self.r.below(n);
                let by = *self.r.pick(&[-2_000_000i64, -100_000, 100_000, 3_600_000_000]);
                self.skew[c].0 += by;
                self.skew[c].1 = *self.r.pick(&[500u64, 990, 1000, 1010, 3000]);
                self.act(Act::Note {
                    what: format!("clock of client {} jumps by {} us", c, by),
                });
            }
            "client crash" => {
                let c = self.r.below(n);
                self.act(Act::CrashClient { c });
                self.after(100_000, Ev::Back(c));
            }
            "authority crash" => {
                if self.w.auth.up {
                    let keep = self.r.below(1 << 16);
                    let zeros = self.r.pm(250);
                    self.act(Act::CrashAuthority { keep, zeros });
                }
            }
            "disk" => {
                let at = self.r.below(1 << 12);
                let seed = self.r.next();
                let fault = *self.r.pick(&[
                    DiskFault::CrashInWrite { at },
                    DiskFault::CrashInWrite { at },
                    DiskFault::NoSpace { at },
                    DiskFault::Eio { at },
                    DiskFault::SyncFails,
                    DiskFault::Short { seed },
                ]);
                self.act(Act::Fault { fault });
            }
            "hostile" => {
                let toks = self.w.auth.toks.clone();
                let m = gen::hostile(&mut self.r, &self.d.cfg.taste, &toks);
                let seed = self.r.next();
                let mut b = Dialect::seeded(seed).step(&m).into_bytes();
                if self.r.pm(250) {
                    b = gen::corrupt(&mut self.r, &b);
                }
                self.act(Act::Hostile { bytes: Bytes(b) });
            }
            _ => {
                // something that was sent once, to whoever is there now
                if !self.seen_bytes.is_empty() {
                    let i = self.r.below(self.seen_bytes.len());
                    let mut b = (*self.seen_bytes[i]).clone();
                    if self.r.pm(300) {
                        b = gen::corrupt(&mut self.r, &b);
                    }
                    self.act(Act::Hostile { bytes: Bytes(b) });
                }
            }
        }
    }
}
