//! The simulated system: an authority with a disk, clients that edit optimistically, followers, and
//! the messages between them. Every party runs the library's own code; this file only moves bytes
//! and documents around and checks what comes out. It draws no randomness of its own: everything an
//! operation needs is written in the operation.

use crate::bridge::*;
use crate::disk::*;
use crate::gen::{self, Taste};
use crate::json::Dialect;
use crate::malformed;
use crate::model::{self, *};
use crate::peer;
use crate::press;
use crate::probe;
use crate::rng::{Hash64, Rng};
use prosemirror::markdown::{MarkdownNode, MD};
use prosemirror::model::Node;
use prosemirror::transform::{ReplaceStep, Span, Step, StepKind};
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::io::BufReader;
use std::rc::Rc;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Config {
    pub clients: usize,
    pub followers: usize,
    pub taste: Taste,
    /// the authority applies steps made for another version as they are
    pub blind: bool,
    /// the authority forwards its own encoding of a step, not the sender's bytes
    pub reencode: bool,
    /// clients roll their own steps back even when nothing came in between
    pub always_rollback: bool,
    pub sync_every: usize,
    /// steps from nowhere may become part of the history when they are harmless
    pub adopt_hostile: bool,
    /// documents are sent in a foreign dialect of JSON
    pub foreign_docs: bool,
    pub max_pending: usize,
}

/// Bytes that print as text where possible.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Bytes(pub Vec<u8>);

impl Serialize for Bytes {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        match std::str::from_utf8(&self.0) {
            Ok(t) => s.serialize_str(&format!("s{}", t)),
            Err(_) => {
                let h: String = self.0.iter().map(|b| format!("{:02x}", b)).collect();
                s.serialize_str(&format!("x{}", h))
            }
        }
    }
}

impl<'de> Deserialize<'de> for Bytes {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let s = String::deserialize(d)?;
        Ok(if let Some(t) = s.strip_prefix('x') {
            Bytes(
                (0..t.len() / 2)
                    .map(|i| u8::from_str_radix(&t[2 * i..2 * i + 2], 16).unwrap_or(0))
                    .collect(),
            )
        } else {
            Bytes(s.as_bytes()[1..].to_vec())
        })
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Act {
    /// a client applies a step of its own to what it sees
    Edit {
        c: usize,
        intent: usize,
        step: MStep,
        dialect: u64,
        native: bool,
    },
    /// a client sends its first unconfirmed step
    Send { c: usize },
    /// a client asks for what it has not seen
    Pull { c: usize },
    Join { c: usize },
    Deliver { m: u64 },
    /// a message arrives damaged
    Garble { m: u64, part: usize, bytes: Bytes },
    /// no effect, written down for the reader of a trace
    Lose { m: u64 },
    Note { what: String },
    CrashClient { c: usize },
    CrashAuthority { keep: usize, zeros: bool },
    Restart { old: bool, seed: u64 },
    Snapshot { seed: u64 },
    Fault { fault: DiskFault },
    /// bytes claiming to be a step arrive from nowhere
    Hostile { bytes: Bytes },
    Probe { who: usize, what: probe::What, seed: u64 },
    /// a party publishes its document as markdown and somebody imports what the disk makes of it;
    /// `adopt`: and proposes it as the new document
    Publish { who: usize, seed: u64, adopt: bool },
    /// a document no editor would write is received, and steps are taken with it
    Malformed {
        root: MNode,
        dialect: u64,
        steps: Vec<MStep>,
        seed: u64,
    },
    /// Faults stop; everybody must catch up
    Settle { seed: u64 },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Op {
    pub id: u64,
    /// simulated time, microseconds
    pub t: u64,
    pub act: Act,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Violation {
    pub kind: String,
    pub tags: Vec<String>,
    pub detail: String,
    pub op: u64,
}

#[derive(Clone)]
pub struct Item {
    pub sess: u32,
    pub seq: u32,
    pub bytes: Rc<Vec<u8>>,
}

#[derive(Clone)]
pub enum Body {
    Submit {
        sess: u32,
        seq: u32,
        version: usize,
        bytes: Rc<Vec<u8>>,
        expect: Rc<MStep>,
    },
    Pull {
        version: usize,
    },
    Join,
    Steps {
        base: usize,
        items: Vec<Item>,
    },
    Doc {
        version: usize,
        bytes: Rc<Vec<u8>>,
    },
    Reject {
        sess: u32,
        seq: u32,
    },
}

#[derive(Clone)]
pub struct Msg {
    /// 0 is the authority, c + 1 a client
    pub from: usize,
    pub to: usize,
    pub body: Body,
}

pub struct Version {
    pub toks: Rc<Toks>,
    pub real: MarkdownNode,
    pub json: Rc<Vec<u8>>,
    /// the step that led here
    pub step: Option<(Item, MStep)>,
}

pub struct Pend {
    pub step: MStep,
    pub real: Step<MD>,
    pub seq: u32,
    pub bytes: Rc<Vec<u8>>,
    pub before: (MarkdownNode, Rc<Toks>),
    pub inv: Option<Step<MD>>,
}

pub struct Client {
    pub follower: bool,
    pub sess: u32,
    pub next_seq: u32,
    pub version: usize,
    pub doc: Option<(MarkdownNode, Rc<Toks>)>,
    pub confirmed: Option<(MarkdownNode, Rc<Toks>)>,
    pub pending: Vec<Pend>,
}

pub struct Authority {
    pub up: bool,
    pub doc: MarkdownNode,
    pub toks: Rc<Toks>,
    pub version: usize,
    pub seqs: BTreeMap<u32, u32>,
    pub told: usize,
    /// rebuilt from disk at least once
    pub recovered: bool,
}

pub struct Snap {
    pub file: File,
}

pub struct World {
    pub cfg: Config,
    pub focus: &'static str,
    pub auth: Authority,
    pub clients: Vec<Client>,
    pub history: Vec<Version>,
    /// the document the authority would have if it never crashed
    pub twin: MarkdownNode,
    /// the markdown file everybody publishes to
    pub page: String,
    pub wal: File,
    pub snaps: [Snap; 2],
    pub next_snap: usize,
    pub fault: Option<DiskFault>,
    pub next_sess: u32,
    pub msgs: BTreeMap<u64, Msg>,
    /// messages emitted by the running operation
    pub out: Vec<u64>,
    pub cur_op: u64,
    msg_no: u64,
    pub violations: Vec<Violation>,
    pub foreign: BTreeMap<String, u64>,
    /// the focus property was violated, or the run cannot go on
    pub stop: bool,
    pub hit: Option<Violation>,
    pub cov: BTreeMap<&'static str, u64>,
    pub doc_hashes: Vec<u64>,
    pub limits: (usize, usize),
    pub settled: bool,
    /// what is found now counts for this property only
    pub as_prop: Option<&'static str>,
}

pub struct Applied {
    pub doc: MarkdownNode,
    pub toks: Rc<Toks>,
    pub step: MStep,
    pub admissible: bool,
}

pub const PROPS: [&str; 19] = [
    "C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C17", "C18", "C19", "C20",
];

fn short<T: std::fmt::Debug>(x: &T) -> String {
    let s = format!("{:?}", x);
    cut(&s, 1500)
}

pub fn cut(s: &str, n: usize) -> String {
    if s.len() <= n {
        return s.to_string();
    }
    let mut e = n;
    while !s.is_char_boundary(e) {
        e -= 1;
    }
    format!("{}... ({} bytes)", &s[..e], s.len())
}

pub fn show(toks: &[Tok]) -> String {
    let mut d = Dialect::canonical();
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| d.nodes(&trees_of(toks)))) {
        Ok(s) => cut(&s, 1200),
        Err(_) => "<unbalanced>".into(),
    }
}

pub fn show_step(s: &MStep) -> String {
    cut(&Dialect::canonical().step(s), 1200)
}

pub fn outcome_eq(
    a: &Result<Option<MarkdownNode>, String>,
    b: &Result<Option<MarkdownNode>, String>,
) -> bool {
    match (a, b) {
        (Ok(x), Ok(y)) => x == y,
        (Err(_), Err(_)) => true,
        _ => false,
    }
}

pub fn show_outcome(a: &Result<Option<MarkdownNode>, String>) -> String {
    match a {
        Ok(Some(d)) => format!(
            "accepted: {}",
            cut(&String::from_utf8_lossy(&serde_json::to_vec(d).unwrap_or_default()), 600)
        ),
        Ok(None) => "refused".into(),
        Err(p) => format!("panic: {}", p),
    }
}

/// Apply without looking at the result.
pub fn raw_apply(step: &Step<MD>, doc: &MarkdownNode) -> Result<Option<MarkdownNode>, String> {
    guard(|| {
        // the same by the step or by its kind
        let res = match step {
            Step::Replace(s) if s.span.from % 4 == 1 => s.apply(doc),
            Step::ReplaceAround(s) if s.span.from % 4 == 1 => s.apply(doc),
            Step::AddMark(s) if s.span.from % 4 == 1 => s.apply(doc),
            Step::RemoveMark(s) if s.span.from % 4 == 1 => s.apply(doc),
            _ => step.apply(doc),
        };
        res.map_err(|e| format!("{} {:?}", e, e)).ok()
    })
}

pub fn decode_step(bytes: &[u8]) -> Result<Option<Step<MD>>, String> {
    guard(|| serde_json::from_slice::<Step<MD>>(bytes).ok())
}

pub fn encode<T: Serialize>(x: &T) -> Result<Vec<u8>, String> {
    guard(|| serde_json::to_vec(x).map_err(|e| e.to_string())).and_then(|r| r)
}

impl World {
    pub fn new(cfg: Config, focus: &'static str, init: &[MNode]) -> World {
        let node = MNode::new(Kind::Doc, init.to_vec());
        let doc = real_node(&node);
        let toks = Rc::new(toks_of(init));
        let json = Rc::new(encode(&doc).unwrap_or_default());
        let limits = (cfg.taste.max_len * 2 + 200, cfg.taste.max_depth + 2);
        let n = cfg.clients + cfg.followers;
        let clients = (0..n)
            .map(|i| Client {
                follower: i >= cfg.clients,
                sess: i as u32 + 1,
                next_seq: 1,
                version: 0,
                doc: None,
                confirmed: None,
                pending: vec![],
            })
            .collect();
        let mut w = World {
            focus,
            auth: Authority {
                up: true,
                doc: doc.clone(),
                toks: toks.clone(),
                version: 0,
                seqs: BTreeMap::new(),
                told: 0,
                recovered: false,
            },
            clients,
            history: vec![Version {
                toks,
                real: doc.clone(),
                json,
                step: None,
            }],
            twin: doc,
            page: String::new(),
            wal: File::default(),
            snaps: [
                Snap {
                    file: File::default(),
                },
                Snap {
                    file: File::default(),
                },
            ],
            next_snap: 0,
            fault: None,
            next_sess: n as u32 + 1,
            msgs: BTreeMap::new(),
            out: vec![],
            cur_op: 0,
            msg_no: 0,
            violations: vec![],
            foreign: BTreeMap::new(),
            stop: false,
            hit: None,
            cov: BTreeMap::new(),
            doc_hashes: vec![],
            limits,
            settled: false,
            as_prop: None,
            cfg,
        };
        // the document before any step is in both slots
        for s in 0..2 {
            let mut f = File::default();
            w.write_snapshot_into(&mut f, None);
            f.sync();
            w.snaps[s].file = f;
        }
        let mut faults = vec![];
        let t = read_doc(&w.auth.doc.clone(), &mut faults);
        if t != *w.auth.toks {
            faults.push(("C10", "constructed document differs from its parts".into()));
        }
        for (p, d) in faults {
            w.flag("initial document", &[p], d);
        }
        w
    }

    pub fn count(&mut self, k: &'static str) {
        *self.cov.entry(k).or_insert(0) += 1;
    }
    pub fn count_n(&mut self, k: &'static str, n: u64) {
        *self.cov.entry(k).or_insert(0) += n;
    }

    pub fn flag(&mut self, kind: &str, tags: &[&str], detail: String) {
        let mut t: Vec<String> = tags.iter().map(|s| s.to_string()).collect();
        if let Some(p) = self.as_prop {
            t = vec![p.to_string()];
        }
        t.sort();
        t.dedup();
        if t.is_empty() {
            return;
        }
        let v = Violation {
            kind: kind.to_string(),
            tags: t.clone(),
            detail,
            op: self.cur_op,
        };
        if t.iter().any(|x| x == self.focus) {
            if self.hit.is_none() {
                self.hit = Some(v.clone());
            }
            self.stop = true;
        } else {
            *self
                .foreign
                .entry(format!("{} [{}]", kind, t.join(" ")))
                .or_insert(0) += 1;
            if self.foreign.values().sum::<u64>() > 200 {
                // a state this broken says nothing about the property at hand
                self.stop = true;
            }
        }
        if self.violations.len() < 50 {
            self.violations.push(v);
        }
    }

    fn emit(&mut self, from: usize, to: usize, body: Body) {
        let id = self.cur_op * 64 + self.msg_no;
        self.msg_no += 1;
        if self.msg_no > 60 {
            return;
        }
        self.msgs.insert(id, Msg { from, to, body });
        self.out.push(id);
    }

    // ---- applying steps ----

    /// Apply a step with the library and judge the outcome with the model. `must` names a property
    /// that demands acceptance.
    pub fn apply_checked(
        &mut self,
        who: &str,
        doc: &MarkdownNode,
        toks: &Rc<Toks>,
        step: &Step<MD>,
        must: Option<&'static str>,
    ) -> Option<Applied> {
        let ms = raw_step(step);
        let o = model::apply(toks, &ms);
        let prop = ms.prop();
        self.count(match prop {
            "C05" => "apply.replace",
            "C06" => "apply.mark",
            _ => "apply.around",
        });
        if ms.structure() {
            self.count("apply.structural");
        }
        let got = guard(|| step.apply(doc));
        let ctx = |d: String| -> String {
            format!(
                "{}\n at {}\n step {}\n doc [{}]",
                d,
                who,
                show_step(&ms),
                show(toks)
            )
        };
        if let Ok(Err(e)) = &got {
            self.count("refusals");
            self.count(crate::reason::kind(e));
            if let Err(d) = crate::reason::step(toks, &ms, e) {
                self.flag(
                    &format!("{} refused for a reason that is none", ms.name()),
                    &["C20"],
                    ctx(format!("{} ({:?})\n {}", e, e, d)),
                );
            }
        }
        let got = got.map(|g| g.map_err(|e| format!("{}", e)));
        let specified = o.verdict != Verdict::Either;
        if ms.structure() {
            self.judge_flag(who, doc, toks, step, &ms, &o, &got);
        }
        let got = match got {
            Err(p) => {
                let mut tags = vec!["C03"];
                if specified {
                    tags.push(prop);
                }
                tags.extend(must);
                self.flag(
                    &format!("panic while applying {}", ms.name()),
                    &tags,
                    ctx(p),
                );
                self.stop = true;
                return None;
            }
            Ok(g) => g,
        };
        let real = match got {
            Err(e) => {
                match o.verdict {
                    Verdict::Accept => {
                        self.flag(
                            &format!("{} refused although it fits", ms.name()),
                            &[&[prop][..], must.as_slice()].concat(),
                            ctx(format!("refused: {}", e)),
                        );
                    }
                    _ => {
                        if let Some(m) = must {
                            self.flag(
                                &format!("{} refused by a replica", ms.name()),
                                &[m],
                                ctx(format!("refused: {}", e)),
                            );
                        }
                        if let Verdict::Refuse(why) = o.verdict {
                            self.count("refused.rightly");
                            if why == STRUCT {
                                self.count("refused.structure");
                            }
                        }
                    }
                }
                return None;
            }
            Ok(r) => r,
        };
        let mut faults = vec![];
        let new = match guard(|| unguarded(|| read_doc(&real, &mut faults))) {
            Ok(t) => t,
            Err(p) => {
                self.flag("panic while reading a result", &["C03", "C10"], ctx(p));
                self.stop = true;
                return None;
            }
        };
        let conforming = match o.verdict {
            Verdict::Accept => true,
            Verdict::Either => o.conforming,
            Verdict::Refuse(_) => o.conforming || conforms(toks, &ms),
        };
        let mut bad = false;
        for (p, d) in faults {
            if p == "C04" && !conforming {
                continue;
            }
            bad = true;
            let mut tags = vec![p];
            if p == "C05" {
                tags = vec![prop];
            } else if conforming && matches!(p, "C04" | "C10") && !tags.contains(&prop) {
                // a value other than the one this step is to give
                tags.push(prop);
            }
            self.flag(
                &format!("{} result: {}", ms.name(), if p == "C10" { "size" } else { "form" }),
                &tags,
                ctx(format!("{}\n result [{}]", d, show(&new))),
            );
        }
        match &o.verdict {
            Verdict::Refuse(why) => {
                bad = true;
                let tags: &[&str] = if *why == STRUCT { &["C08"] } else { &[prop] };
                self.flag(
                    &format!("{} accepted: {}", ms.name(), why),
                    tags,
                    ctx(format!("accepted with result [{}]", show(&new))),
                );
            }
            _ => {
                if let Some(want) = &o.result {
                    if *want != new {
                        bad = true;
                        let marks_only = want.len() == new.len()
                            && want.iter().zip(&new).all(|(a, b)| match (a, b) {
                                (Tok::U(x, _), Tok::U(y, _)) => x == y,
                                (a, b) => a == b,
                            });
                        let mut tags = vec![prop];
                        if !specified {
                            // content outside the schema: only the splice is specified
                            tags = if marks_only { vec![] } else { vec![prop] };
                        }
                        self.flag(
                            &format!("{} result is wrong", ms.name()),
                            &tags,
                            ctx(format!("expected [{}]\n got      [{}]", show(want), show(&new))),
                        );
                    }
                }
            }
        }
        if conforming {
            if let Err(e) = check_valid(&new) {
                bad = true;
                self.flag(
                    &format!("{} result is not valid", ms.name()),
                    &["C04"],
                    ctx(format!("{}\n result [{}]", e, show(&new))),
                );
            }
        }
        self.count("accepted");
        let valid = !bad || check_valid(&new).is_ok();
        let admissible = conforming
            && valid
            && o.verdict != Verdict::Either
            && new.len() <= self.limits.0
            && max_depth(&new) <= self.limits.1;
        Some(Applied {
            doc: real,
            toks: Rc::new(new),
            step: ms,
            admissible,
        })
    }

    /// The structure flag must make no difference except to refuse what would be overwritten.
    fn judge_flag(
        &mut self,
        who: &str,
        doc: &MarkdownNode,
        toks: &Rc<Toks>,
        step: &Step<MD>,
        ms: &MStep,
        o: &Outcome,
        got: &Result<Result<MarkdownNode, String>, String>,
    ) {
        if o.verdict == Verdict::Refuse(STRUCT) || (o.verdict == Verdict::Either && o.result.is_none())
        {
            return;
        }
        let mut plain = copy_step(step);
        match &mut plain {
            Step::Replace(r) => r.structure = false,
            Step::ReplaceAround(r) => r.structure = false,
            _ => {}
        }
        let a = match got {
            Ok(Ok(d)) => Ok(Some(d.clone())),
            Ok(Err(_)) => Ok(None),
            Err(p) => Err(p.clone()),
        };
        let b = raw_apply(&plain, doc);
        self.count("flag.compared");
        if !outcome_eq(&a, &b) {
            self.flag(
                &format!("structure flag changes the outcome of {}", ms.name()),
                &["C08"],
                format!(
                    "flagged {}\n unflagged {}\n at {}\n step {}\n doc [{}]",
                    show_outcome(&a),
                    show_outcome(&b),
                    who,
                    show_step(ms),
                    show(toks)
                ),
            );
        }
    }

    /// The step that takes the last one back, from the library's own slice of the old document.
    fn inverse(&mut self, old: &MarkdownNode, toks: &Rc<Toks>, ms: &MStep) -> Option<Step<MD>> {
        let (from, to) = ms.span();
        let new_size = match ms {
            MStep::Replace { slice, .. } => slice.size(),
            MStep::Around { gf, gt, slice, .. } => slice.size() + (gt - gf),
            _ => to - from,
        };
        match guard(|| old.slice(from..to, false)) {
            Ok(Ok(slice)) => Some(Step::Replace(ReplaceStep {
                span: Span {
                    from,
                    to: from + new_size,
                },
                slice,
                structure: false,
            })),
            Ok(Err(e)) => {
                self.flag(
                    "no slice to roll back with",
                    &["C09", "C12"],
                    format!("{}\n {}..{} of [{}]", e, from, to, show(toks)),
                );
                None
            }
            Err(p) => {
                self.flag(
                    "panic while slicing",
                    &["C09", "C12", "C03"],
                    format!("{}\n {}..{} of [{}]", p, from, to, show(toks)),
                );
                None
            }
        }
    }

    fn undo(
        &mut self,
        who: &str,
        now: &MarkdownNode,
        inv: &Step<MD>,
        before: &(MarkdownNode, Rc<Toks>),
        step: &MStep,
    ) -> Option<MarkdownNode> {
        self.count("rollbacks");
        let ctx = |d: String| {
            format!(
                "{}\n at {}\n step {}\n inverse {}\n before [{}]",
                d,
                who,
                show_step(step),
                show_step(&raw_step(inv)),
                show(&before.1)
            )
        };
        match raw_apply(inv, now) {
            Err(p) => {
                self.flag("panic while rolling back", &["C09", "C03", "C05"], ctx(p));
                None
            }
            Ok(None) => {
                self.flag(
                    &format!("roll back of {} refused", step.name()),
                    &["C09"],
                    ctx("refused".into()),
                );
                None
            }
            Ok(Some(d)) => {
                let mut f = vec![];
                let t = read_doc(&d, &mut f);
                if d != before.0 || t != *before.1 || !f.is_empty() {
                    self.flag(
                        &format!("roll back of {} is not exact", step.name()),
                        &["C09"],
                        ctx(format!("got [{}] {}", show(&t), short(&f))),
                    );
                    return None;
                }
                Some(d)
            }
        }
    }

    // ---- the authority ----

    fn reply_steps(&mut self, c: usize, version: usize) {
        if !self.auth.up {
            return;
        }
        let told = self.auth.told;
        let base = version.min(told);
        let items = (base..told.min(base + 20))
            .map(|v| self.history[v + 1].step.as_ref().unwrap().0.clone())
            .collect();
        self.emit(0, c + 1, Body::Steps { base, items });
    }

    fn submit(
        &mut self,
        c: Option<usize>,
        sess: u32,
        seq: u32,
        version: usize,
        bytes: &Rc<Vec<u8>>,
        expect: Option<&MStep>,
    ) {
        if !self.auth.up {
            return;
        }
        let step = match decode_step(bytes) {
            Err(p) => {
                self.flag(
                    "panic while decoding a step",
                    &["C03", "C11"],
                    format!("{}\n {}", p, cut(&String::from_utf8_lossy(bytes), 1500)),
                );
                self.stop = true;
                return;
            }
            Ok(None) => {
                self.count("undecodable");
                if expect.is_some() {
                    self.flag(
                        "a step does not decode",
                        &["C11", "C01"],
                        cut(&String::from_utf8_lossy(bytes), 1500),
                    );
                }
                if let Some(c) = c {
                    self.reply_steps(c, version);
                }
                return;
            }
            Ok(Some(s)) => s,
        };
        let ms = raw_step(&step);
        if let Some(e) = expect {
            self.check_decoded(e, &ms, bytes);
        } else {
            self.check_marks(&ms, bytes);
        }
        if sess != 0 {
            if seq <= *self.auth.seqs.get(&sess).unwrap_or(&0) {
                self.count("submit.duplicate");
                if let Some(c) = c {
                    let taken = self.history.iter().any(|h| {
                        matches!(&h.step, Some((i, _)) if i.sess == sess && i.seq == seq)
                    });
                    if !taken {
                        // the answer got lost
                        self.emit(0, c + 1, Body::Reject { sess, seq });
                    }
                    self.reply_steps(c, version);
                }
                return;
            }
            if version != self.auth.version {
                self.count("submit.stale");
                if !self.cfg.blind {
                    if let Some(c) = c {
                        if self.auth.told < self.auth.version {
                            self.sync();
                        }
                        self.reply_steps(c, version);
                    }
                    return;
                }
                self.count("apply.stale");
            }
        }
        let doc = self.auth.doc.clone();
        let toks = self.auth.toks.clone();
        let applied = self.apply_checked("authority", &doc, &toks, &step, None);
        if self.stop {
            return;
        }
        // the twin that never crashed
        if self.auth.recovered {
            let b = raw_apply(&step, &self.twin);
            let a = Ok(applied.as_ref().map(|a| a.doc.clone()));
            self.count("twin.compared");
            if !outcome_eq(&a, &b) {
                self.flag(
                    "recovered authority decides differently",
                    &["C02"],
                    format!(
                        "recovered {}\n never crashed {}\n step {}\n doc [{}]",
                        show_outcome(&a),
                        show_outcome(&b),
                        show_step(&ms),
                        show(&toks)
                    ),
                );
            }
        }
        let accepted = match applied {
            None => {
                if expect.is_some() && c.is_some() && version == self.auth.version {
                    // the client accepted this step on the same version
                    self.flag(
                        "authority refuses what a replica of the same version accepted",
                        &["C01"],
                        format!("step {}\n doc [{}]", show_step(&ms), show(&toks)),
                    );
                }
                None
            }
            Some(a) => {
                if undo_specified(&ms) {
                    if let Some(inv) = self.inverse(&doc, &toks, &ms) {
                        let before = (doc, toks.clone());
                        self.undo("authority", &a.doc, &inv, &before, &ms);
                    }
                }
                if a.admissible && (sess != 0 || self.cfg.adopt_hostile) {
                    Some(a)
                } else {
                    self.count("accepted.not adopted");
                    None
                }
            }
        };
        if self.stop {
            return;
        }
        match accepted {
            None => {
                if let Some(c) = c {
                    self.auth.seqs.insert(sess, seq);
                    self.count("submit.rejected");
                    self.emit(0, c + 1, Body::Reject { sess, seq });
                    self.reply_steps(c, version);
                }
            }
            Some(a) => self.commit(a, &step, sess, seq, bytes),
        }
    }

    /// A decoded step must be the one that was meant.
    fn check_decoded(&mut self, want: &MStep, got: &MStep, bytes: &[u8]) {
        self.count("decoded.compared");
        if want != got {
            let mut tags = vec!["C11"];
            if want.structure() != got.structure() {
                tags.push("C08");
            }
            self.check_marks(got, bytes);
            self.flag(
                "a step decodes to another one",
                &tags,
                format!(
                    "sent {}\n got {}\n bytes {}",
                    show_step(want),
                    show_step(got),
                    cut(&String::from_utf8_lossy(bytes), 1500)
                ),
            );
        }
    }

    fn check_marks(&mut self, got: &MStep, bytes: &[u8]) {
        fn dup(k: &[MNode]) -> Option<&'static str> {
            for n in k {
                for w in n.marks.windows(2) {
                    if w[0].rank() == w[1].rank() {
                        return Some("two marks of one type");
                    }
                    if w[0].rank() > w[1].rank() {
                        return Some("marks out of order");
                    }
                }
                for (i, a) in n.marks.iter().enumerate() {
                    if n.marks[..i].iter().any(|b| b.rank() == a.rank()) {
                        return Some("two marks of one type");
                    }
                }
                if let Some(x) = dup(&n.kids) {
                    return Some(x);
                }
            }
            None
        }
        if let Some(d) = peer::step_otherwise(bytes, got) {
            self.flag(
                "damaged bytes decode to a step they do not say",
                &["C19"],
                format!("{}\n {}", d, cut(&String::from_utf8_lossy(bytes), 1500)),
            );
        }
        if let Some(s) = got.slice() {
            if let Some(w) = dup(&s.content) {
                self.flag(
                    "a mark set is not canonical",
                    &["C04", "C11"],
                    format!("{}: {}", w, cut(&String::from_utf8_lossy(bytes), 1500)),
                );
            }
        }
    }

    fn commit(&mut self, a: Applied, step: &Step<MD>, sess: u32, seq: u32, bytes: &Rc<Vec<u8>>) {
        let enc = match encode(step) {
            Ok(b) => b,
            Err(e) => {
                self.flag("a step cannot be encoded", &["C11", "C02", "C01"], e);
                self.stop = true;
                return;
            }
        };
        match decode_step(&enc) {
            Ok(Some(back)) => {
                let ok = guard(|| back == *step).unwrap_or(false);
                if !ok || raw_step(&back) != a.step {
                    self.flag(
                        "a step changes in its own encoding",
                        &["C11", if raw_step(&back).structure() != a.step.structure() { "C08" } else { "C11" }],
                        format!(
                            "{}\n encoded {}",
                            show_step(&a.step),
                            cut(&String::from_utf8_lossy(&enc), 1500)
                        ),
                    );
                }
            }
            _ => self.flag(
                "a step does not decode from its own encoding",
                &["C11", "C02", "C01"],
                format!(
                    "{}\n encoded {}",
                    show_step(&a.step),
                    cut(&String::from_utf8_lossy(&enc), 1500)
                ),
            ),
        }
        if self.stop {
            return;
        }
        let json = match encode(&a.doc) {
            Ok(b) => Rc::new(b),
            Err(e) => {
                self.flag("a document cannot be encoded", &["C11", "C02"], e);
                self.stop = true;
                return;
            }
        };
        // log first
        if !self.log_step(step, &enc, sess, seq) {
            return;
        }
        let twin = if self.auth.recovered {
            match raw_apply(step, &self.twin) {
                Ok(Some(d)) => d,
                _ => a.doc.clone(),
            }
        } else {
            a.doc.clone()
        };
        self.twin = twin.clone();
        let mut h = Hash64::new();
        h.bytes(&json);
        self.doc_hashes.push(h.0);
        self.history.push(Version {
            toks: a.toks.clone(),
            real: twin,
            json,
            step: Some((
                Item {
                    sess,
                    seq,
                    bytes: if self.cfg.reencode {
                        Rc::new(enc)
                    } else {
                        bytes.clone()
                    },
                },
                a.step,
            )),
        });
        self.auth.doc = a.doc;
        self.auth.toks = a.toks;
        self.auth.version += 1;
        if sess != 0 {
            self.auth.seqs.insert(sess, seq);
        }
        self.count("committed");
        if self.auth.up && self.auth.version - self.auth.told >= self.cfg.sync_every {
            self.sync();
        }
    }

    fn take_fault(&mut self, sync: bool) -> Option<DiskFault> {
        match self.fault {
            Some(DiskFault::SyncFails) if sync => self.fault.take(),
            Some(DiskFault::SyncFails) => None,
            Some(_) if !sync => self.fault.take(),
            _ => None,
        }
    }

    /// Append a record; false when the authority must not go on with the step.
    fn log_step(&mut self, step: &Step<MD>, enc: &[u8], sess: u32, seq: u32) -> bool {
        let mut rec = vec![];
        rec.extend_from_slice(&(enc.len() as u32).to_le_bytes());
        rec.extend_from_slice(&sess.to_le_bytes());
        rec.extend_from_slice(&seq.to_le_bytes());
        rec.extend_from_slice(&(self.auth.version as u32 + 1).to_le_bytes());
        let start = self.wal.pending.len();
        self.wal.pending.extend_from_slice(&rec);
        let fault = self.take_fault(false);
        let mut buf = std::mem::take(&mut self.wal.pending);
        let before = buf.len();
        let (res, hit, ints, shorts) = {
            let mut w = SimWriter::new(&mut buf);
            set_fault(&mut w, fault, enc.len());
            let r = guard(|| serde_json::to_writer(&mut w, step).map_err(|e| e.to_string()));
            (r, w.hit, w.interrupts, w.shorts)
        };
        self.wal.pending = buf;
        self.count_n("fault.write interrupted", ints);
        self.count_n("fault.short write", shorts);
        match res {
            Err(p) => {
                self.flag("panic while encoding a step", &["C11", "C02", "C03"], p);
                self.stop = true;
                false
            }
            Ok(Ok(())) => {
                if hit != WriteEnd::Fine && self.wal.pending[before..] != *enc {
                    self.flag(
                        "a failed write is not reported",
                        &["C11", "C02"],
                        format!("{:?}: step {}", hit, cut(&String::from_utf8_lossy(enc), 800)),
                    );
                } else if self.wal.pending[before..] != *enc {
                    self.flag(
                        "a write is incomplete",
                        &["C11", "C02"],
                        format!("step {}", cut(&String::from_utf8_lossy(enc), 800)),
                    );
                }
                if matches!(fault, Some(DiskFault::CrashInWrite { .. })) {
                    // all bytes got out before the crash
                    self.count("fault.crash in append");
                    self.crash_after_append(step, sess, seq);
                    return false;
                }
                true
            }
            Ok(Err(_)) => match hit {
                WriteEnd::Crashed => {
                    self.count("fault.crash in append");
                    let keep = self.wal.pending.len();
                    self.crash(keep, false);
                    false
                }
                WriteEnd::NoSpace | WriteEnd::Eio => {
                    self.count(if hit == WriteEnd::NoSpace {
                        "fault.no space"
                    } else {
                        "fault.write error"
                    });
                    // the torn record is taken back, the step is not accepted
                    self.wal.pending.truncate(start);
                    false
                }
                WriteEnd::Fine => {
                    self.flag(
                        "a write fails without a reason",
                        &["C11"],
                        cut(&String::from_utf8_lossy(enc), 800),
                    );
                    self.wal.pending.truncate(start);
                    false
                }
            },
        }
    }

    /// The record is complete but the authority dies before it could use it.
    fn crash_after_append(&mut self, step: &Step<MD>, sess: u32, seq: u32) {
        // remember what the version would be, in case the record survives
        if let Ok(Some(d)) = raw_apply(step, &self.twin) {
            let mut f = vec![];
            let t = read_doc(&d, &mut f);
            let json = encode(&d).unwrap_or_default();
            let enc = encode(step).unwrap_or_default();
            self.twin = d.clone();
            self.history.push(Version {
                toks: Rc::new(t),
                real: d,
                json: Rc::new(json),
                step: Some((
                    Item {
                        sess,
                        seq,
                        bytes: Rc::new(enc),
                    },
                    raw_step(step),
                )),
            });
        }
        let keep = self.wal.pending.len();
        self.crash(keep, false);
    }

    fn sync(&mut self) {
        if !self.auth.up {
            return;
        }
        if self.wal.pending.is_empty() && self.auth.told == self.auth.version {
            return;
        }
        if self.take_fault(true).is_some() {
            // nothing is known about what reached the disk: the process gives up
            self.count("fault.sync fails");
            let keep = self.wal.pending.len() / 2;
            self.crash(keep, false);
            return;
        }
        self.wal.sync();
        let base = self.auth.told;
        self.auth.told = self.auth.version;
        for c in 0..self.clients.len() {
            if self.clients[c].doc.is_some() {
                self.reply_steps(c, base);
            }
        }
    }

    fn crash(&mut self, keep: usize, zeros: bool) {
        if !self.auth.up {
            return;
        }
        self.count("fault.authority crash");
        if !self.wal.pending.is_empty() {
            self.count("fault.crash with unsynced data");
        }
        self.auth.up = false;
        self.wal.crash(keep, zeros);
        for s in &mut self.snaps {
            s.file.crash(keep, zeros);
        }
        self.fault = None;
    }

    fn snapshot_header(&self, len: usize) -> Vec<u8> {
        let mut h = vec![];
        h.extend_from_slice(&(len as u32).to_le_bytes());
        h.extend_from_slice(&(self.auth.version as u32).to_le_bytes());
        h.extend_from_slice(&(self.auth.seqs.len() as u32).to_le_bytes());
        for (a, b) in &self.auth.seqs {
            h.extend_from_slice(&a.to_le_bytes());
            h.extend_from_slice(&b.to_le_bytes());
        }
        h
    }

    fn write_snapshot_into(&mut self, f: &mut File, fault: Option<DiskFault>) -> bool {
        let full = match encode(&self.auth.doc) {
            Ok(b) => b,
            Err(e) => {
                self.flag("a document cannot be encoded", &["C11", "C02"], e);
                return false;
            }
        };
        f.pending = self.snapshot_header(full.len());
        let start = f.pending.len();
        let (res, hit, ints, shorts) = {
            let mut w = SimWriter::new(&mut f.pending);
            set_fault(&mut w, fault, full.len());
            let r = guard(|| {
                serde_json::to_writer(&mut w, &self.auth.doc).map_err(|e| e.to_string())
            });
            (r, w.hit, w.interrupts, w.shorts)
        };
        self.count_n("fault.write interrupted", ints);
        self.count_n("fault.short write", shorts);
        let ok = match res {
            Err(p) => {
                self.flag("panic while encoding a document", &["C11", "C02"], p);
                self.stop = true;
                false
            }
            Ok(Ok(())) => {
                if f.pending[start..] != full[..] {
                    self.flag(
                        "a write is incomplete",
                        &["C11", "C02"],
                        format!("document, {:?}", hit),
                    );
                }
                true
            }
            Ok(Err(_)) => {
                if hit == WriteEnd::Fine {
                    self.flag("a write fails without a reason", &["C11"], String::new());
                }
                false
            }
        };
        match fault {
            Some(DiskFault::CrashInWrite { .. }) => {
                self.count("fault.crash in snapshot");
                false
            }
            Some(DiskFault::NoSpace { .. }) if !ok => {
                self.count("fault.no space");
                false
            }
            Some(DiskFault::Eio { .. }) if !ok => {
                self.count("fault.write error");
                false
            }
            _ => ok,
        }
    }

    fn snapshot(&mut self) {
        if !self.auth.up {
            return;
        }
        // the log is synced first: a snapshot never gets ahead of it
        self.sync();
        if !self.auth.up {
            return;
        }
        let fault = self.take_fault(false);
        let slot = self.next_snap;
        let mut f = File::default();
        let ok = self.write_snapshot_into(&mut f, fault);
        self.count("snapshots");
        if ok {
            f.sync();
            self.snaps[slot].file = f;
            self.next_snap = 1 - slot;
        } else if let Some(DiskFault::CrashInWrite { .. }) = fault {
            // the crash takes any part of what was written
            self.snaps[slot].file = f;
            let keep = self.snaps[slot].file.pending.len();
            self.crash(keep, false);
        } else {
            // the half-written slot stays as it is; the other one is good
            f.sync();
            self.snaps[slot].file = f;
        }
    }

    /// Rebuild the authority's document from what is on disk.
    pub fn recover(
        &mut self,
        old: bool,
        seed: u64,
    ) -> Option<(MarkdownNode, usize, BTreeMap<u32, u32>, usize)> {
        let mut rng = Rng::new(seed);
        let mut good: Vec<(usize, MarkdownNode, BTreeMap<u32, u32>)> = vec![];
        for s in 0..2 {
            let data = self.snaps[s].file.durable.clone();
            if data.len() < 12 {
                continue;
            }
            let u = |i: usize| u32::from_le_bytes(data[i..i + 4].try_into().unwrap()) as usize;
            let (len, version, n) = (u(0), u(4), u(8));
            let head = 12 + n * 8;
            if data.len() < head {
                continue;
            }
            let mut seqs = BTreeMap::new();
            for i in 0..n {
                seqs.insert(u(12 + i * 8) as u32, u(16 + i * 8) as u32);
            }
            let body = &data[head..];
            let torn = body.len() < len || body[..len].contains(&0);
            let body = &body[..body.len().min(len)];
            let r = self.read_doc_from(body, &mut rng);
            match (torn, r) {
                (true, Ok(None)) => self.count("recovery.torn snapshot"),
                (false, Ok(Some(d))) => good.push((version, d, seqs)),
                (true, Ok(Some(_))) => self.flag(
                    "a torn document is read back",
                    &["C02", "C11"],
                    cut(&String::from_utf8_lossy(body), 1500),
                ),
                (false, Ok(None)) => self.flag(
                    "a stored document does not decode",
                    &["C02", "C11"],
                    cut(&String::from_utf8_lossy(body), 1500),
                ),
                (_, Err(p)) => {
                    self.flag("panic while reading a document", &["C02", "C11", "C03"], p)
                }
            }
        }
        if self.stop {
            return None;
        }
        good.sort_by_key(|g| g.0);
        if good.is_empty() {
            self.flag("nothing to recover from", &["C02"], String::new());
            self.stop = true;
            return None;
        }
        let (mut version, mut doc, mut seqs) = if old || good.len() == 1 {
            good.remove(0)
        } else {
            good.remove(1)
        };
        self.check_recovered(version, &doc, "snapshot");
        // replay the log
        let data = self.wal.durable.clone();
        let mut p = 0;
        let mut end = 0;
        let mut last = 0;
        while p + 16 <= data.len() {
            let u = |i: usize| u32::from_le_bytes(data[i..i + 4].try_into().unwrap());
            let (len, sess, seq, ver) = (u(p) as usize, u(p + 4), u(p + 8), u(p + 12) as usize);
            let body = &data[p + 16..];
            let torn = body.len() < len || body[..len].contains(&0) || len == 0;
            let body = &body[..body.len().min(len)];
            if torn {
                if !body.is_empty() {
                    self.count("recovery.torn record");
                    match self.read_step_from(body, &mut rng) {
                        Ok(None) => {}
                        Ok(Some(_)) => self.flag(
                            "a torn step is read back",
                            &["C02", "C11"],
                            cut(&String::from_utf8_lossy(body), 1500),
                        ),
                        Err(p) => {
                            self.flag("panic while reading a step", &["C02", "C11", "C03"], p)
                        }
                    }
                }
                break;
            }
            match self.read_step_from(body, &mut rng) {
                Ok(Some(step)) => {
                    last = ver;
                    if ver == version + 1 {
                        match raw_apply(&step, &doc) {
                            Ok(Some(d)) => {
                                doc = d;
                                version = ver;
                                if sess != 0 {
                                    seqs.insert(sess, seq);
                                }
                                self.count("recovery.replayed");
                                self.check_recovered(version, &doc, "replay");
                            }
                            other => {
                                self.flag(
                                    "a stored step is refused on replay",
                                    &["C02"],
                                    format!(
                                        "{}\n step {}",
                                        show_outcome(&other),
                                        show_step(&raw_step(&step))
                                    ),
                                );
                                self.stop = true;
                            }
                        }
                    } else if ver > version + 1 {
                        // the harness lost track; cannot happen
                        panic!("gap in the log: {} after {}", ver, version);
                    }
                }
                Ok(None) => {
                    self.flag(
                        "a stored step does not decode",
                        &["C02", "C11"],
                        cut(&String::from_utf8_lossy(body), 1500),
                    );
                    self.stop = true;
                }
                Err(p) => {
                    self.flag("panic while reading a step", &["C02", "C11", "C03"], p);
                    self.stop = true;
                }
            }
            if self.stop {
                return None;
            }
            p += 16 + len;
            end = p;
        }
        let _ = last;
        Some((doc, version, seqs, end))
    }

    fn check_recovered(&mut self, version: usize, doc: &MarkdownNode, how: &str) {
        if version >= self.history.len() {
            panic!("recovered version {} of {}", version, self.history.len());
        }
        self.count("recovery.compared");
        let mut f = vec![];
        let t = read_doc(doc, &mut f);
        let json = encode(doc).unwrap_or_default();
        let h = &self.history[version];
        if t != *h.toks || *doc != h.real || json != *h.json {
            let d = format!(
                "version {} by {}\n was [{}]\n is  [{}]\n json was {}\n json is {}",
                version,
                how,
                show(&h.toks),
                show(&t),
                cut(&String::from_utf8_lossy(&h.json), 600),
                cut(&String::from_utf8_lossy(&json), 600)
            );
            let tags: &[&str] = if how == "snapshot" {
                &["C02", "C11"]
            } else {
                &["C02"]
            };
            self.flag("recovered document differs", tags, d);
        }
        for (p, d) in f {
            self.flag("recovered document is malformed", &[p, "C02"], d);
        }
    }

    fn read_doc_from(&mut self, b: &[u8], rng: &mut Rng) -> Result<Option<MarkdownNode>, String> {
        let mut r = SimReader::chunked(b, rng.next());
        let cap = 1 + rng.below(64);
        let res = if rng.coin() {
            guard(|| {
                serde_json::from_reader::<_, MarkdownNode>(BufReader::with_capacity(cap, &mut r)).ok()
            })
        } else {
            guard(|| serde_json::from_slice::<MarkdownNode>(b).ok())
        };
        let n = r.interrupts;
        self.count_n("fault.read interrupted", n);
        res
    }

    fn read_step_from(&mut self, b: &[u8], rng: &mut Rng) -> Result<Option<Step<MD>>, String> {
        let mut r = SimReader::chunked(b, rng.next());
        let cap = 1 + rng.below(64);
        let res = if rng.coin() {
            guard(|| {
                serde_json::from_reader::<_, Step<MD>>(BufReader::with_capacity(cap, &mut r)).ok()
            })
        } else {
            guard(|| serde_json::from_slice::<Step<MD>>(b).ok())
        };
        let n = r.interrupts;
        self.count_n("fault.read interrupted", n);
        res
    }

    fn restart(&mut self, old: bool, seed: u64) {
        if self.auth.up {
            return;
        }
        let (doc, version, seqs, end) = match self.recover(old, seed) {
            Some(x) => x,
            None => return,
        };
        self.count("recoveries");
        self.wal.durable.truncate(end);
        if version < self.auth.told {
            panic!("the disk lost version {}", self.auth.told);
        }
        if version + 1 < self.history.len() {
            self.count("recovery.lost unsynced");
        }
        self.history.truncate(version + 1);
        self.twin = self.history[version].real.clone();
        let mut f = vec![];
        let toks = read_doc(&doc, &mut f);
        self.auth = Authority {
            up: true,
            doc,
            toks: Rc::new(toks),
            version,
            seqs,
            told: version,
            recovered: true,
        };
    }

    // ---- clients ----

    fn check_confirmed(&mut self, c: usize, what: &str) {
        let (v, d) = {
            let cl = &self.clients[c];
            match &cl.confirmed {
                Some(d) => (cl.version, d.clone()),
                None => return,
            }
        };
        self.count("replica.compared");
        let json = encode(&d.0).unwrap_or_default();
        let h = &self.history[v];
        if d.0 != h.real || *d.1 != *h.toks || json != *h.json {
            let msg = format!(
                "client {} at version {} after {}\n authority [{}]\n client    [{}]\n json {}\n json {}",
                c,
                v,
                what,
                show(&h.toks),
                show(&d.1),
                cut(&String::from_utf8_lossy(&h.json), 500),
                cut(&String::from_utf8_lossy(&json), 500)
            );
            self.flag("a replica diverges", &["C01"], msg);
        }
    }

    fn edit(&mut self, c: usize, step: &MStep, dialect: u64, native: bool) {
        let (doc, toks) = match &self.clients[c].doc {
            Some(d) => d.clone(),
            None => return,
        };
        if self.clients[c].pending.len() >= self.cfg.max_pending {
            return;
        }
        let json = Dialect::seeded(dialect).step(step).into_bytes();
        let built = guard(|| real_step(step));
        let decoded = decode_step(&json);
        let built = match built {
            Ok(b) => b,
            Err(p) => {
                self.flag("panic while building a step", &["C03"], p);
                self.stop = true;
                return;
            }
        };
        let raw = raw_step(&built);
        if raw != *step {
            self.flag(
                "a constructed step is not what was asked for",
                &["C04", "C11"],
                format!("want {}\n got {}", show_step(step), show_step(&raw)),
            );
        }
        match &decoded {
            Ok(Some(d)) => {
                self.check_decoded(step, &raw_step(d), &json);
                if !guard(|| *d == built).unwrap_or(false) {
                    self.flag(
                        "a decoded step differs from a constructed one",
                        &["C11"],
                        cut(&String::from_utf8_lossy(&json), 1500),
                    );
                }
            }
            Ok(None) => {
                self.flag(
                    "a step does not decode",
                    &["C11", "C01"],
                    cut(&String::from_utf8_lossy(&json), 1500),
                );
            }
            Err(p) => {
                let p = p.clone();
                self.flag("panic while decoding a step", &["C03", "C11"], p);
            }
        }
        if self.stop {
            return;
        }
        let (real, bytes) = if native {
            match encode(&built) {
                Ok(b) => (built, b),
                Err(_) => (built, json),
            }
        } else {
            match decoded {
                Ok(Some(d)) => (d, json),
                _ => return,
            }
        };
        let who = format!("client {}", c);
        let a = match self.apply_checked(&who, &doc, &toks, &real, None) {
            Some(a) => a,
            None => return,
        };
        if self.stop || !a.admissible {
            return;
        }
        let inv = self.inverse(&doc, &toks, &a.step);
        let cl = &mut self.clients[c];
        let seq = cl.next_seq;
        cl.next_seq += 1;
        cl.pending.push(Pend {
            step: a.step,
            real,
            seq,
            bytes: Rc::new(bytes),
            before: (doc, toks),
            inv,
        });
        cl.doc = Some((a.doc, a.toks));
    }

    fn send(&mut self, c: usize) {
        let cl = &self.clients[c];
        if cl.doc.is_none() {
            self.emit(c + 1, 0, Body::Join);
            return;
        }
        if let Some(p) = cl.pending.first() {
            let b = Body::Submit {
                sess: cl.sess,
                seq: p.seq,
                version: cl.version,
                bytes: p.bytes.clone(),
                expect: Rc::new(p.step.clone()),
            };
            self.emit(c + 1, 0, b);
        }
    }

    /// Back to the confirmed document, through the inverses.
    fn rollback(&mut self, c: usize) -> Vec<Pend> {
        let who = format!("client {}", c);
        let pend = std::mem::take(&mut self.clients[c].pending);
        let mut now = self.clients[c].doc.as_ref().unwrap().0.clone();
        let n = pend.len();
        for p in pend.iter().rev() {
            match &p.inv {
                Some(inv) => match self.undo(&who, &now, inv, &p.before, &p.step) {
                    Some(d) => now = d,
                    None => now = p.before.0.clone(),
                },
                None => now = p.before.0.clone(),
            }
            if self.stop {
                return vec![];
            }
        }
        let conf = self.clients[c].confirmed.clone().unwrap();
        if n > 0 {
            self.count("rollback.chains");
            if n > 1 {
                self.count("rollback.deep chains");
            }
            if now != conf.0 || encode(&now).ok() != encode(&conf.0).ok() {
                self.flag(
                    "roll back does not reach the confirmed document",
                    &["C09"],
                    format!(
                        "{} steps\n confirmed [{}]\n got {}",
                        n,
                        show(&conf.1),
                        short(&encode(&now).map(|b| String::from_utf8_lossy(&b).into_owned()))
                    ),
                );
            }
        }
        self.clients[c].doc = Some((now, conf.1.clone()));
        pend
    }

    /// Put pending steps back on top of the confirmed document, mapped over what came in between.
    fn reapply(&mut self, c: usize, old: Vec<Pend>, skip: usize, between: &[Vec<(usize, usize, usize)>]) {
        let who = format!("client {}", c);
        // maps that lead from before step i to the new document
        let mut undone: Vec<Vec<(usize, usize, usize)>> = vec![];
        let mut redone: Vec<Vec<(usize, usize, usize)>> = vec![];
        for (i, p) in old.into_iter().enumerate() {
            if i < skip {
                undone.push(invert_map(&step_map(&p.step)));
                continue;
            }
            let mut s = Some(p.step.clone());
            for m in undone
                .iter()
                .rev()
                .chain(between.iter())
                .chain(redone.iter())
            {
                s = s.and_then(|s| rebase(&s, m));
            }
            undone.push(invert_map(&step_map(&p.step)));
            let s = match s {
                Some(s) => s,
                None => {
                    self.count("rebase.dropped");
                    continue;
                }
            };
            let (doc, toks) = self.clients[c].doc.clone().unwrap();
            let same = s == p.step;
            let (real, bytes) = if same {
                (p.real, p.bytes)
            } else {
                let r = real_step(&s);
                let b = match encode(&r) {
                    Ok(b) => b,
                    Err(_) => continue,
                };
                (r, Rc::new(b))
            };
            match self.apply_checked(&who, &doc, &toks, &real, None) {
                Some(a) if a.admissible => {
                    let inv = self.inverse(&doc, &toks, &a.step);
                    self.count("rebase.kept");
                    redone.push(step_map(&a.step));
                    let cl = &mut self.clients[c];
                    cl.pending.push(Pend {
                        step: a.step,
                        real,
                        seq: p.seq,
                        bytes,
                        before: (doc, toks),
                        inv,
                    });
                    cl.doc = Some((a.doc, a.toks));
                }
                _ => self.count("rebase.refused"),
            }
            if self.stop {
                return;
            }
        }
    }

    fn receive_step(&mut self, c: usize, item: &Item) {
        let v = self.clients[c].version;
        let step = match decode_step(&item.bytes) {
            Ok(Some(s)) => s,
            Ok(None) => {
                self.flag(
                    "an accepted step does not decode",
                    &["C11", "C01"],
                    cut(&String::from_utf8_lossy(&item.bytes), 1500),
                );
                self.stop = true;
                return;
            }
            Err(p) => {
                self.flag("panic while decoding a step", &["C03", "C11", "C01"], p);
                self.stop = true;
                return;
            }
        };
        let want = self.history[v + 1].step.as_ref().unwrap().1.clone();
        let ms = raw_step(&step);
        self.check_decoded(&want, &ms, &item.bytes);
        if self.stop {
            return;
        }
        let mine = self.clients[c].sess == item.sess
            && self.clients[c].pending.first().map(|p| p.seq) == Some(item.seq);
        let fast = mine
            && !self.cfg.always_rollback
            && self.clients[c].pending[0].step == ms;
        if fast {
            self.count("confirm.fast");
            let cl = &mut self.clients[c];
            cl.pending.remove(0);
            cl.confirmed = Some(match cl.pending.first() {
                Some(p) => p.before.clone(),
                None => cl.doc.clone().unwrap(),
            });
            cl.version += 1;
            self.check_confirmed(c, "its own step was confirmed");
            return;
        }
        let old = self.rollback(c);
        if self.stop {
            return;
        }
        // from here on it is at the confirmed document
        let (doc, toks) = self.clients[c].doc.clone().unwrap();
        let who = format!("client {}", c);
        match self.apply_checked(&who, &doc, &toks, &step, Some("C01")) {
            Some(a) => {
                let cl = &mut self.clients[c];
                cl.doc = Some((a.doc.clone(), a.toks.clone()));
                cl.confirmed = Some((a.doc, a.toks));
                cl.version += 1;
                self.count("remote.applied");
                if !old.is_empty() {
                    self.count("remote.applied under pending");
                }
                self.check_confirmed(c, "a step of the history");
            }
            None => {
                // diverged; nothing more to learn from this client
                self.stop = true;
            }
        }
        if self.stop {
            return;
        }
        let skip = usize::from(mine);
        self.reapply(c, old, skip, &[step_map(&ms)]);
    }

    fn receive_doc(&mut self, c: usize, version: usize, bytes: &[u8]) {
        if self.clients[c].doc.is_some() && version <= self.clients[c].version {
            return;
        }
        if self.clients[c].doc.is_some() && !self.clients[c].pending.is_empty() {
            return;
        }
        match guard(|| serde_json::from_slice::<MarkdownNode>(bytes).ok()) {
            Ok(Some(d)) => {
                let mut f = vec![];
                let t = read_doc(&d, &mut f);
                for (p, x) in f {
                    self.flag("a decoded document is malformed", &[p, "C11"], x);
                }
                let h = &self.history[version];
                if d != h.real || t != *h.toks {
                    let msg = format!(
                        "version {}\n was [{}]\n is  [{}]\n bytes {}",
                        version,
                        show(&h.toks),
                        show(&t),
                        cut(&String::from_utf8_lossy(bytes), 1500)
                    );
                    self.flag("a document decodes to another one", &["C11", "C01"], msg);
                }
                self.count("joins");
                let t = Rc::new(t);
                let cl = &mut self.clients[c];
                cl.doc = Some((d.clone(), t.clone()));
                cl.confirmed = Some((d, t));
                cl.version = version;
                cl.pending.clear();
                self.check_confirmed(c, "joining");
            }
            Ok(None) => self.flag(
                "a document does not decode",
                &["C11", "C01"],
                cut(&String::from_utf8_lossy(bytes), 1500),
            ),
            Err(p) => self.flag("panic while decoding a document", &["C11", "C03"], p),
        }
    }

    fn receive(&mut self, c: usize, body: &Body) {
        match body {
            Body::Steps { base, items } => {
                if self.clients[c].doc.is_none() {
                    return;
                }
                for (k, it) in items.iter().enumerate() {
                    let v = base + k;
                    let cv = self.clients[c].version;
                    if v == cv {
                        self.receive_step(c, it);
                        if self.stop {
                            return;
                        }
                    } else if v > cv {
                        self.count("net.gap");
                        self.emit(c + 1, 0, Body::Pull { version: cv });
                        return;
                    }
                }
            }
            Body::Doc { version, bytes } => self.receive_doc(c, *version, bytes),
            Body::Reject { sess, seq } => {
                let cl = &self.clients[c];
                if cl.sess == *sess && cl.pending.first().map(|p| p.seq) == Some(*seq) {
                    self.count("rejects seen");
                    let old = self.rollback(c);
                    if self.stop {
                        return;
                    }
                    self.reapply(c, old, 1, &[]);
                }
            }
            _ => {}
        }
    }

    fn at_authority(&mut self, from: usize, body: &Body, intact: bool) {
        if !self.auth.up {
            self.count("net.to a dead authority");
            return;
        }
        match body {
            Body::Submit {
                sess,
                seq,
                version,
                bytes,
                expect,
            } => {
                let e = expect.clone();
                self.submit(
                    Some(from - 1),
                    *sess,
                    *seq,
                    *version,
                    bytes,
                    if intact { Some(&e) } else { None },
                );
            }
            Body::Pull { version } => self.reply_steps(from - 1, *version),
            Body::Join => {
                if self.auth.told < self.auth.version {
                    self.sync();
                }
                if !self.auth.up {
                    return;
                }
                let bytes = if self.cfg.foreign_docs {
                    let v = self.auth.version as u64;
                    Dialect::seeded(v * 31 + self.cur_op).doc(&self.auth.toks).into_bytes()
                } else {
                    (*self.history[self.auth.version].json).clone()
                };
                let version = self.auth.version;
                self.emit(
                    0,
                    from,
                    Body::Doc {
                        version,
                        bytes: Rc::new(bytes),
                    },
                );
            }
            _ => {}
        }
    }

    fn deliver(&mut self, m: &Msg) {
        if m.to == 0 {
            self.at_authority(m.from, &m.body, true);
        } else {
            self.receive(m.to - 1, &m.body);
        }
    }

    /// Damaged bytes reach a party. On the way to the authority nothing else protects it; on the way
    /// to a client the transport notices, but only after the party's decoder has seen them.
    fn garble(&mut self, m: &Msg, part: usize, bytes: &[u8]) {
        self.count("fault.corrupted");
        match &m.body {
            Body::Submit {
                sess, seq, version, ..
            } => {
                if m.to == 0 && self.auth.up {
                    let b = Rc::new(bytes.to_vec());
                    self.submit(Some(m.from - 1), *sess, *seq, *version, &b, None);
                }
            }
            Body::Steps { .. } => {
                let _ = part;
                let c = m.to - 1;
                if let Some((d, t)) = self.clients[c].doc.clone() {
                    self.hostile_at(&format!("client {}", c), &d, &t, bytes);
                }
            }
            Body::Doc { .. } => {
                match guard(|| serde_json::from_slice::<MarkdownNode>(bytes).ok()) {
                    Err(p) => self.flag(
                        "panic while decoding a document",
                        &["C11", "C03"],
                        format!("{}\n {}", p, cut(&String::from_utf8_lossy(bytes), 1500)),
                    ),
                    Ok(Some(d)) => {
                        self.count("garbled doc decoded");
                        if let Some(d) = peer::node_otherwise(bytes, &raw_tree(&d)) {
                            self.flag(
                                "damaged bytes decode to a document they do not say",
                                &["C19"],
                                format!("{}\n {}", d, cut(&String::from_utf8_lossy(bytes), 1500)),
                            );
                        }
                    }
                    Ok(None) => self.count("undecodable"),
                }
            }
            _ => {}
        }
    }

    /// Bytes from nowhere, applied to a document that must not suffer.
    fn hostile_at(&mut self, who: &str, doc: &MarkdownNode, toks: &Rc<Toks>, bytes: &[u8]) {
        self.count("hostile");
        match decode_step(bytes) {
            Err(p) => {
                self.flag(
                    "panic while decoding a step",
                    &["C03", "C11"],
                    format!("{}\n {}", p, cut(&String::from_utf8_lossy(bytes), 1500)),
                );
                self.stop = true;
            }
            Ok(None) => self.count("undecodable"),
            Ok(Some(step)) => {
                let ms = raw_step(&step);
                self.check_marks(&ms, bytes);
                let before = encode(doc).unwrap_or_default();
                let a = self.apply_checked(who, doc, toks, &step, None);
                if self.stop {
                    return;
                }
                if a.is_none() {
                    self.count("hostile.refused");
                }
                let after = encode(doc).unwrap_or_default();
                if before != after {
                    self.flag(
                        "a step changed the document it was applied to",
                        &["C03"],
                        show_step(&ms),
                    );
                }
                // whatever came out must be usable
                if let Some(a) = a {
                    let r = guard(|| {
                        let b = serde_json::to_vec(&a.doc).map_err(|e| e.to_string())?;
                        serde_json::from_slice::<MarkdownNode>(&b).map_err(|e| e.to_string())
                    });
                    match r {
                        Err(p) => self.flag(
                            "panic while encoding a result",
                            &["C03", "C11"],
                            format!("{}\n step {}", p, show_step(&ms)),
                        ),
                        Ok(r) => {
                            let ok = matches!(&r, Ok(d) if *d == a.doc);
                            if !ok && max_depth(&a.toks) < 40 {
                                self.flag(
                                    "a result does not decode from its own encoding",
                                    &["C11"],
                                    format!("step {}\n result [{}]", show_step(&ms), show(&a.toks)),
                                );
                            }
                        }
                    }
                    if undo_specified(&ms) {
                        if let Some(inv) = self.inverse(doc, toks, &ms) {
                            let b = (doc.clone(), toks.clone());
                            self.undo(who, &a.doc, &inv, &b, &ms);
                        }
                    }
                }
            }
        }
    }

    // ---- operations ----

    pub fn exec(&mut self, op: &Op) {
        crate::clock::at(op.t);
        self.cur_op = op.id;
        self.msg_no = 0;
        self.out.clear();
        match &op.act {
            Act::Edit {
                c,
                intent,
                step,
                dialect,
                native,
            } => {
                self.count("op.edit");
                let _ = intent;
                if *c < self.clients.len() {
                    self.edit(*c, step, *dialect, *native)
                }
            }
            Act::Send { c } => self.send(*c),
            Act::Pull { c } => {
                if self.clients[*c].doc.is_some() {
                    let version = self.clients[*c].version;
                    self.emit(c + 1, 0, Body::Pull { version });
                } else {
                    self.emit(c + 1, 0, Body::Join);
                }
            }
            Act::Join { c } => self.emit(c + 1, 0, Body::Join),
            Act::Deliver { m } => {
                if let Some(msg) = self.msgs.get(m).cloned() {
                    self.count("net.delivered");
                    self.deliver(&msg);
                }
            }
            Act::Garble { m, part, bytes } => {
                if let Some(msg) = self.msgs.get(m).cloned() {
                    self.garble(&msg, *part, &bytes.0);
                }
            }
            Act::Lose { .. } => self.count("fault.lost"),
            Act::Note { what } => {
                if what.starts_with("partition") {
                    self.count("fault.partition");
                } else if what.starts_with("dup") {
                    self.count("fault.duplicated");
                } else if what.starts_with("stall") {
                    self.count("fault.stall");
                } else if what.starts_with("clock") {
                    self.count("fault.clock jump");
                }
            }
            Act::CrashClient { c } => {
                self.count("fault.client crash");
                let s = self.next_sess;
                self.next_sess += 1;
                let cl = &mut self.clients[*c];
                cl.sess = s;
                cl.next_seq = 1;
                cl.doc = None;
                cl.confirmed = None;
                cl.pending.clear();
                cl.version = 0;
            }
            Act::CrashAuthority { keep, zeros } => {
                if *zeros && !self.wal.pending.is_empty() {
                    self.count("fault.lost write");
                }
                self.crash(*keep, *zeros)
            }
            Act::Restart { old, seed } => self.restart(*old, *seed),
            Act::Snapshot { .. } => self.snapshot(),
            Act::Fault { fault } => self.fault = Some(*fault),
            Act::Hostile { bytes } => {
                if self.auth.up {
                    let d = self.auth.doc.clone();
                    let t = self.auth.toks.clone();
                    self.hostile_at("authority", &d, &t, &bytes.0);
                    if !self.stop && self.cfg.adopt_hostile {
                        let b = Rc::new(bytes.0.clone());
                        self.submit(None, 0, 0, self.auth.version, &b, None);
                    }
                }
            }
            Act::Probe { who, what, seed } => {
                if let Some((doc, toks, name)) = self.someone(*who, *seed) {
                    probe::run(self, &name, &doc, &toks, *what, *seed);
                }
            }
            Act::Publish { who, seed, adopt } => {
                if let Some((doc, toks, name)) = self.someone(*who, *seed) {
                    if let Some(d) = press::run(self, &name, &doc, &toks, *seed) {
                        self.imported(&d, *adopt);
                    }
                }
            }
            Act::Malformed {
                root,
                dialect,
                steps,
                seed,
            } => malformed::run(self, "a party", root, *dialect, steps, *seed),
            Act::Settle { seed } => self.settle(*seed),
        }
    }

    /// An imported document takes the place of the authority's.
    fn imported(&mut self, d: &MarkdownNode, adopt: bool) {
        if !self.auth.up || self.stop {
            return;
        }
        let frag = match frag_of(d) {
            Some(f) => f,
            None => return,
        };
        let step = real_step(&MStep::Replace {
            from: 0,
            to: self.auth.toks.len(),
            slice: MSlice::flat(raw_trees(frag)),
            structure: false,
        });
        let (doc, toks) = (self.auth.doc.clone(), self.auth.toks.clone());
        let a = self.apply_checked("authority, an imported document", &doc, &toks, &step, Some("C15"));
        if self.stop {
            return;
        }
        if let Some(a) = a {
            if !guard(|| a.doc == *d).unwrap_or(false) {
                self.flag(
                    "an imported document changes when it is proposed",
                    &["C15"],
                    format!("{:?}
 became {:?}", d, a.doc),
                );
                return;
            }
        }
        if adopt && !self.stop && self.auth.toks.len() < 4 * self.cfg.taste.max_len {
            if let Ok(b) = encode(&step) {
                self.count("markdown.adopted");
                self.submit(None, 0, 0, self.auth.version, &Rc::new(b), None);
            }
        }
    }

    /// 0 the authority, 1..=n the clients, above that an old version somebody still holds.
    fn someone(&self, who: usize, seed: u64) -> Option<(MarkdownNode, Rc<Toks>, String)> {
        let n = self.clients.len();
        if who == 0 {
            if self.auth.up {
                return Some((self.auth.doc.clone(), self.auth.toks.clone(), "authority".into()));
            }
            return None;
        }
        if who <= n {
            let cl = &self.clients[who - 1];
            if let Some((d, t)) = &cl.doc {
                return Some((d.clone(), t.clone(), format!("client {}", who - 1)));
            }
            return None;
        }
        let v = (seed % self.history.len() as u64) as usize;
        let h = &self.history[v];
        Some((h.real.clone(), h.toks.clone(), format!("holder of version {}", v)))
    }

    /// Everybody catches up: no loss, no crash, no new edits.
    fn settle(&mut self, seed: u64) {
        self.fault = None;
        if !self.auth.up {
            self.restart(seed & 1 == 1, seed);
            if self.stop || !self.auth.up {
                return;
            }
        }
        self.sync();
        let pending: usize = self.clients.iter().map(|c| c.pending.len()).sum();
        let behind: usize = self
            .clients
            .iter()
            .map(|c| self.auth.version.saturating_sub(c.version) / 20 + 1)
            .max()
            .unwrap_or(1);
        let bound = pending * 2 + behind + self.clients.len() + 4;
        let mut rounds = 0;
        loop {
            self.out.clear();
            let done = self.clients.iter().all(|c| {
                c.doc.is_some() && c.version == self.auth.version && c.pending.is_empty()
            }) && self.auth.told == self.auth.version;
            if done {
                break;
            }
            if rounds >= bound {
                let d = format!(
                    "after {} rounds: authority at {}, clients {:?}",
                    rounds,
                    self.auth.version,
                    self.clients
                        .iter()
                        .map(|c| (c.doc.is_some(), c.version, c.pending.len()))
                        .collect::<Vec<_>>()
                );
                self.flag("no convergence after faults stopped", &["C01"], d);
                return;
            }
            rounds += 1;
            for c in 0..self.clients.len() {
                if self.clients[c].doc.is_none() {
                    self.settle_send(c, Body::Join);
                } else {
                    let version = self.clients[c].version;
                    self.settle_send(c, Body::Pull { version });
                    if self.clients[c].doc.is_some() {
                        if let Some(p) = self.clients[c].pending.first() {
                            let b = Body::Submit {
                                sess: self.clients[c].sess,
                                seq: p.seq,
                                version: self.clients[c].version,
                                bytes: p.bytes.clone(),
                                expect: Rc::new(p.step.clone()),
                            };
                            self.settle_send(c, b);
                        }
                    }
                }
                if self.stop {
                    return;
                }
            }
            self.sync();
            self.settle_flush();
            if self.stop {
                return;
            }
        }
        self.count_n("settle.rounds", rounds as u64);
        self.count("settled");
        self.out.clear();
        for c in 0..self.clients.len() {
            self.check_confirmed(c, "settling");
            let cl = &self.clients[c];
            let (a, b) = (cl.doc.clone().unwrap(), cl.confirmed.clone().unwrap());
            if a.0 != b.0 {
                self.flag("a client without unconfirmed steps sees another document", &["C01", "C09"], String::new());
            }
        }
        // late joiner from any version, through JSON
        let mut rng = Rng::new(seed);
        for _ in 0..2 {
            let k = rng.below(self.history.len());
            self.late_joiner(k);
            if self.stop {
                return;
            }
        }
        // power cut with everything synced, from either snapshot
        for old in [false, true] {
            if let Some((doc, version, _, _)) = self.recover(old, rng.next()) {
                if version != self.auth.version || doc != self.auth.doc {
                    self.flag(
                        "recovered document differs",
                        &["C02"],
                        format!("version {} instead of {}", version, self.auth.version),
                    );
                }
            }
            if self.stop {
                return;
            }
        }
        // versions somebody still holds
        for v in 0..self.history.len() {
            let j = encode(&self.history[v].real).unwrap_or_default();
            let mut f = vec![];
            let t = read_doc(&self.history[v].real, &mut f);
            if j != *self.history[v].json || t != *self.history[v].toks {
                self.flag(
                    "a held version changed",
                    &["C03"],
                    format!("version {}", v),
                );
            }
        }
        self.settled = true;
    }

    fn settle_send(&mut self, c: usize, b: Body) {
        if self.stop {
            return;
        }
        self.at_authority(c + 1, &b, true);
        self.settle_flush();
    }

    /// Deliver everything emitted, in order, at once.
    fn settle_flush(&mut self) {
        let mut guard = 0;
        while !self.out.is_empty() && !self.stop {
            let ids = std::mem::take(&mut self.out);
            for id in ids {
                if let Some(m) = self.msgs.remove(&id) {
                    if m.to != 0 {
                        self.receive(m.to - 1, &m.body);
                    }
                }
                if self.stop {
                    return;
                }
            }
            guard += 1;
            if guard > 200 {
                break;
            }
        }
        self.out.clear();
        self.msg_no = 0;
    }

    fn late_joiner(&mut self, k: usize) {
        let json = self.history[k].json.clone();
        let mut doc = match guard(|| serde_json::from_slice::<MarkdownNode>(&json).ok()) {
            Ok(Some(d)) => d,
            _ => {
                self.flag(
                    "a document does not decode",
                    &["C11", "C01", "C02"],
                    cut(&String::from_utf8_lossy(&json), 1500),
                );
                return;
            }
        };
        self.count("late joiners");
        for v in k..self.auth.version {
            let item = self.history[v + 1].step.as_ref().unwrap().0.clone();
            let r = match decode_step(&item.bytes) {
                Ok(Some(s)) => raw_apply(&s, &doc),
                other => {
                    let d = format!("version {}: {:?}", v + 1, other.map(|_| ()));
                    self.flag("an accepted step does not decode", &["C01", "C11"], d);
                    return;
                }
            };
            match r {
                Ok(Some(d)) => doc = d,
                other => {
                    let d = format!(
                        "from version {} at {}: {}\n step {}",
                        k,
                        v,
                        show_outcome(&other),
                        cut(&String::from_utf8_lossy(&item.bytes), 800)
                    );
                    self.flag("a late joiner refuses an accepted step", &["C01"], d);
                    return;
                }
            }
            self.count("replica.compared");
            let h = &self.history[v + 1];
            if doc != h.real || encode(&doc).ok().as_ref() != Some(&*h.json) {
                let mut f = vec![];
                let t = read_doc(&doc, &mut f);
                let d = format!(
                    "joined at {}, version {}\n authority [{}]\n joiner    [{}]",
                    k,
                    v + 1,
                    show(&h.toks),
                    show(&t)
                );
                self.flag("a replica diverges", &["C01"], d);
                return;
            }
        }
    }
}

fn invert_map(m: &[(usize, usize, usize)]) -> Vec<(usize, usize, usize)> {
    let mut diff: i64 = 0;
    m.iter()
        .map(|&(s, o, n)| {
            let r = ((s as i64 + diff).max(0) as usize, n, o);
            diff += n as i64 - o as i64;
            r
        })
        .collect()
}

fn set_fault(w: &mut SimWriter, f: Option<DiskFault>, len: usize) {
    match f {
        Some(DiskFault::CrashInWrite { at }) => {
            let k = at % (len + 1);
            if k < len {
                w.limit = Some((k, WriteEnd::Crashed));
            }
        }
        Some(DiskFault::NoSpace { at }) => {
            w.limit = Some((at % len.max(1), WriteEnd::NoSpace));
            w.zero_writes = at & 1 == 1;
        }
        Some(DiskFault::Eio { at }) => w.limit = Some((at % len.max(1), WriteEnd::Eio)),
        Some(DiskFault::Short { seed }) => w.rng = Some(Rng::new(seed)),
        _ => {}
    }
}

/// What a step brings in conforms to the schema, whether or not it fits.
fn conforms(doc: &[Tok], ms: &MStep) -> bool {
    match ms {
        MStep::Replace { slice, .. } => slice_conforms(slice),
        MStep::Around {
            gf,
            gt,
            slice,
            insert,
            ..
        } => {
            if gf > gt || *gt > doc.len() || !slice.deep_enough() {
                return false;
            }
            let d = insert.saturating_add(slice.os);
            let size = toks_of(&slice.content).len();
            d <= size && ancestors(doc, *gf) == ancestors(doc, *gt) && slice_waits(slice, *insert)
        }
        _ => true,
    }
}

/// Rolling back is promised for steps that leave no empty text behind and whose parts are in order.
fn undo_specified(ms: &MStep) -> bool {
    if let MStep::Around { from, to, gf, gt, .. } = ms {
        if !(from <= gf && gf <= gt && gt <= to) {
            return false;
        }
    }
    ms.slice()
        .map_or(true, |s| !has_empty_text(&s.content) && s.deep_enough())
}
