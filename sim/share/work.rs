//! The cases: documents, slices and steps that threads share, what each thread does with them, and
//! what it sees.

use crate::bridge::*;
use crate::gen::{self, Taste};
use crate::json::Dialect;
use crate::model::*;
use crate::rng::Rng;
use prosemirror::markdown::{from_markdown, to_markdown, MarkdownMark, MarkdownNode, MD};
use prosemirror::model::{ContentMatch, Fragment, Mark as _, MarkSet, Node, NodeType, Slice};
use prosemirror::transform::Step;
use serde::{Deserialize, Serialize};
use std::borrow::Cow;
use std::fmt::Write as _;
use std::sync::{Arc, Mutex};

#[derive(Serialize, Deserialize, Clone, Copy, Debug, PartialEq, Eq)]
pub enum What {
    Apply,
    Encode,
    Decode,
    Positions,
    Slice,
    Text,
    Walk,
    Replace,
    Fit,
    Equal,
    Clone,
    Export,
    Import,
    Marks,
    Sizes,
    Show,
    Steps,
    Slices,
    WalkPanics,
    EncodeFails,
    DecodeFails,
    Parts,
}

pub const WHATS: [What; 22] = [
    What::Apply,
    What::Encode,
    What::Decode,
    What::Positions,
    What::Slice,
    What::Text,
    What::Walk,
    What::Replace,
    What::Fit,
    What::Equal,
    What::Clone,
    What::Export,
    What::Import,
    What::Marks,
    What::Sizes,
    What::Show,
    What::Steps,
    What::Slices,
    What::WalkPanics,
    What::EncodeFails,
    What::DecodeFails,
    What::Parts,
];
const WEIGHTS: [usize; 22] = [10, 4, 4, 4, 4, 3, 3, 4, 3, 3, 2, 4, 4, 3, 3, 1, 2, 2, 1, 2, 1, 3];

/// The document an operation works on.
#[derive(Serialize, Deserialize, Clone, Copy, Debug, PartialEq, Eq)]
pub enum On {
    /// one that all threads share from the beginning
    Base(u32),
    /// what this thread made last
    Own,
    /// what that thread published last
    Of(u32),
}

/// What becomes of a document an operation made.
#[derive(Serialize, Deserialize, Clone, Copy, Debug, PartialEq, Eq)]
pub enum Then {
    Keep,
    Publish,
    Drop,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq, Eq)]
pub struct Do {
    pub what: What,
    pub on: On,
    pub a: u64,
    pub b: u64,
    pub c: u64,
    pub then: Then,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Case {
    pub docs: Vec<MNode>,
    pub slices: Vec<MSlice>,
    pub steps: Vec<MStep>,
    pub texts: Vec<String>,
    pub marks: Vec<Mark>,
    pub threads: Vec<Vec<Do>>,
    /// the scheduler's seed and habits
    pub seed: u64,
    pub gap: u64,
    pub hot: u64,
    pub stall: u64,
    pub first: u64,
    /// the schedule, when it is given: at which event which thread goes on
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub switches: Option<Vec<(u64, u64)>>,
}

/// What the threads share.
pub struct Shared {
    pub docs: Vec<MarkdownNode>,
    slices: Vec<Slice<MD>>,
    steps: Vec<Step<MD>>,
    texts: Vec<String>,
    jsons: Vec<Vec<u8>>,
    marks: Vec<MarkdownMark>,
    sets: Vec<MarkSet<MD>>,
    published: Vec<Mutex<Option<Arc<MarkdownNode>>>>,
}

/// Everything the library hands out is to be shared and sent: where that is no longer so, this
/// does not compile.
pub fn sharable() {
    use prosemirror::markdown as m;
    use prosemirror::model as d;
    use prosemirror::transform as t;
    fn ok<T: Send + Sync + 'static>() {}
    ok::<MarkdownNode>();
    ok::<MarkdownMark>();
    ok::<Fragment<MD>>();
    ok::<Slice<MD>>();
    ok::<MarkSet<MD>>();
    ok::<d::Text>();
    ok::<d::TextNode<MD>>();
    ok::<d::Block<MD>>();
    ok::<d::ResolvedPos<'static, MD>>();
    ok::<d::ResolveErr>();
    ok::<d::SliceError>();
    ok::<d::ReplaceError<MD>>();
    ok::<Step<MD>>();
    ok::<t::StepError<MD>>();
    ok::<t::ReplaceStep<MD>>();
    ok::<t::ReplaceAroundStep<MD>>();
    ok::<t::AddMarkStep<MD>>();
    ok::<t::RemoveMarkStep<MD>>();
    ok::<m::MarkdownContentMatch>();
    ok::<m::MarkdownNodeType>();
    ok::<m::FromMarkdownError>();
    ok::<m::ToMarkdownError>();
}

fn all_sets(n: &MarkdownNode, out: &mut Vec<MarkSet<MD>>) {
    if let Some(m) = n.marks() {
        out.push(m.clone());
    }
    for k in n.content().map(|c| c.children()).unwrap_or(&[]) {
        all_sets(k, out);
    }
}

impl Case {
    pub fn shared(&self) -> Shared {
        let docs: Vec<MarkdownNode> = self.docs.iter().map(real_node).collect();
        let mut sets = vec![MarkSet::default()];
        for d in &docs {
            all_sets(d, &mut sets);
        }
        Shared {
            docs,
            sets,
            slices: self.slices.iter().map(real_slice).collect(),
            steps: self.steps.iter().map(real_step).collect(),
            texts: self.texts.clone(),
            jsons: self
                .docs
                .iter()
                .enumerate()
                .map(|(i, d)| Dialect::seeded(self.seed ^ i as u64).node(d).into_bytes())
                .collect(),
            marks: self.marks.iter().map(real_mark).collect(),
            published: self.threads.iter().map(|_| Mutex::new(None)).collect(),
        }
    }
}

/// What one operation of a thread saw.
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq, Eq, Default)]
pub struct Seen {
    pub said: String,
    /// a document of another thread it worked on
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub input: Option<MNode>,
}

/// Where a thread finds the documents of others.
pub enum Source<'a> {
    /// in the slots, while the threads run
    Slots,
    /// in the record of that run, when it is executed alone
    Record(&'a [Seen]),
}

/// The program of thread `t`.
pub fn program(case: &Case, s: &Shared, t: usize, source: Source) -> Vec<Seen> {
    let mut own: Option<Arc<MarkdownNode>> = None;
    let mut out: Vec<Seen> = vec![];
    // what failed there comes last when executed alone: it is nothing to what follows it
    let mut late = vec![];
    let once = |d: &Do, held: &Option<Arc<MarkdownNode>>| {
        let base = match d.on {
            On::Base(k) => k as usize,
            _ => d.a as usize,
        };
        let doc: &MarkdownNode = match held {
            Some(a) => a,
            None => &s.docs[base % s.docs.len()],
        };
        let r = guard(|| {
            let _in = crate::Inside::new();
            run(d, doc, s)
        });
        match r {
            Ok(x) => x,
            Err(p) => (format!("panic: {}", p), None),
        }
    };
    for (i, d) in case.threads[t].iter().enumerate() {
        crate::rt_op_safe(i as u64 + 1);
        let mut input = None;
        let held: Option<Arc<MarkdownNode>> = match (d.on, &source) {
            (On::Base(_), _) => None,
            (On::Own, _) => own.clone(),
            (On::Of(j), Source::Slots) => {
                let p = s.published[j as usize % s.published.len()].lock().unwrap().clone();
                input = p.as_deref().map(raw_tree);
                p
            }
            (On::Of(_), Source::Record(r)) => {
                input = r.get(i).and_then(|x| x.input.clone());
                input.as_ref().map(|m| Arc::new(real_node(m)))
            }
        };
        if let Source::Record(r) = &source {
            let fails = matches!(d.what, What::WalkPanics | What::EncodeFails | What::DecodeFails);
            let failed = |x: &Seen| x.said.starts_with("error") || x.said.starts_with("panic");
            if fails && r.get(i).map_or(false, failed) {
                late.push((i, d, held));
                out.push(Seen { said: String::new(), input });
                continue;
            }
        }
        let (said, made) = once(d, &held);
        let mut old = held;
        if let Some(m) = made {
            match d.then {
                Then::Keep => {
                    old = own.replace(Arc::new(m));
                }
                Then::Publish => {
                    let a = Arc::new(m);
                    own = Some(a.clone());
                    if let Source::Slots = source {
                        old = s.published[t].lock().unwrap().replace(a);
                    }
                }
                Then::Drop => old = Some(Arc::new(m)),
            }
        }
        // whoever is last to drop a document does so within the library
        let _ = guard(|| {
            let _in = crate::Inside::new();
            drop(old)
        });
        out.push(Seen { said, input });
    }
    for (i, d, held) in late {
        out[i].said = once(d, &held).0;
    }
    out
}

/// How often an operation that is to fail is repeated before.
fn often(d: &Do) -> usize {
    if d.b % 3 == 0 {
        (d.b / 3 % 120) as usize
    } else {
        0
    }
}

fn say<T, E: std::fmt::Display>(r: &Result<T, E>, ok: impl FnOnce(&T) -> String) -> String {
    match r {
        Ok(x) => ok(x),
        Err(e) => format!("error {}", e),
    }
}

fn js<T: Serialize>(x: &T) -> String {
    serde_json::to_string(x).unwrap_or_else(|e| e.to_string())
}

struct Fails(usize, bool);
impl std::io::Write for Fails {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        if self.0 < b.len() {
            if self.1 {
                panic!("the writer's own");
            }
            return Err(std::io::Error::new(std::io::ErrorKind::Other, "full"));
        }
        self.0 -= b.len();
        Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
struct Cut<'a>(&'a [u8], bool);
impl std::io::Read for Cut<'_> {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        let n = b.len().min(self.0.len()).min(7);
        if n == 0 && self.1 {
            panic!("the reader's own");
        }
        b[..n].copy_from_slice(&self.0[..n]);
        self.0 = &self.0[n..];
        Ok(n)
    }
}

fn sizes(n: &MarkdownNode, out: &mut String) {
    let _ = write!(
        out,
        "({:?} {} {} {} {}{}{}{}",
        n.r#type(),
        n.node_size(),
        n.content_size(),
        n.child_count(),
        n.is_block() as u8,
        n.is_inline() as u8,
        n.is_leaf() as u8,
        n.is_text() as u8
    );
    for i in 0..n.child_count() {
        sizes(n.child(i).unwrap(), out);
    }
    out.push(')');
}

/// The true content in order, with text units and marks.
fn positions(n: &MarkdownNode, from: usize, step: usize, out: &mut String) {
    let end = n.content_size() + 2;
    let mut p = from;
    while p < end {
        match n.resolve(p) {
            Ok(r) => {
                let depth = (0..64).take_while(|d| r.before(*d + 1).map_or(false, |b| b != p)).count();
                let _ = write!(out, "[{} {} {:?}", p, depth, r);
                let _ = write!(
                    out,
                    " {:?} {:?} {} {}]",
                    r.node_before().map(|x| x.node_size()),
                    r.node_after().map(|x| x.node_size()),
                    r.text_offset(),
                    r.shared_depth(from)
                );
            }
            Err(e) => {
                let _ = write!(out, "[{} {}]", p, e);
            }
        }
        p += step;
    }
}

fn run(d: &Do, doc: &MarkdownNode, s: &Shared) -> (String, Option<MarkdownNode>) {
    let size = doc.content_size();
    let (x, y) = (d.a as usize % (size + 2), d.b as usize % (size + 2));
    let (from, to) = (x.min(y), x.max(y));
    let c = d.c as usize;
    let other = &s.docs[c % s.docs.len()];
    match d.what {
        What::Apply => {
            let r = s.steps[c % s.steps.len()].apply(doc);
            (say(&r, js), r.ok())
        }
        What::Encode => (js(doc), None),
        What::Decode => {
            let r = serde_json::from_slice::<MarkdownNode>(&s.jsons[c % s.jsons.len()]);
            (say(&r, js), r.ok())
        }
        What::Positions => {
            let mut out = String::new();
            positions(doc, x % 7, 1 + c % 5, &mut out);
            (out, None)
        }
        What::Slice => {
            let r = doc.slice(from..to, c % 2 == 0);
            (say(&r, |s| format!("{} {:?}", js(s), s)), None)
        }
        What::Text => {
            let mut out = String::new();
            if doc.resolve(from).is_ok() && doc.resolve(to).is_ok() {
                if let Some(f) = doc.content() {
                    let sep = [None, Some(""), Some("|")][c % 3];
                    let leaf = [None, Some("+"), Some("leaf")][c / 3 % 3];
                    f.text_between(&mut out, true, from, to, sep, leaf);
                }
            }
            (format!("{:?} {:?}", out, doc.text_content()), None)
        }
        What::Walk => {
            let mut out = String::new();
            if let Some(f) = doc.content() {
                f.nodes_between(
                    from,
                    to.min(size),
                    &mut |n, p| {
                        let _ = write!(out, "{} {:?} {};", p, n.r#type(), n.node_size());
                        if d.a % 4 == 0 && out.len() < 4000 {
                            let _ = write!(out, "{:?} {};", n.text_content(), js(n).len());
                        }
                        c % 4 != 0 || p % 3 != 1
                    },
                    0,
                );
            }
            (out, None)
        }
        What::Replace => {
            let r = doc.replace(from..to, &s.slices[c % s.slices.len()]);
            (say(&r, js), r.ok())
        }
        What::Fit => {
            let mut out = String::new();
            let sl = &s.slices[c % s.slices.len()];
            let mut todo = vec![doc];
            while let Some(n) = todo.pop() {
                let k = n.child_count();
                let i = if k == 0 { 0 } else { d.a as usize % (k + 1) };
                let j = i + if k == i { 0 } else { d.b as usize % (k - i + 1) };
                let _ = write!(
                    out,
                    "{:?} {:?} {} {};",
                    n.can_replace(i, j, Some(&sl.content), ..),
                    n.content_match_at(i).map(|m| m.valid_end()),
                    n.r#type().valid_content(&sl.content),
                    n.r#type().compatible_content(other.r#type())
                );
                todo.extend(n.content().map(|c| c.children()).unwrap_or(&[]));
            }
            (out, None)
        }
        What::Equal => {
            let mut out = format!("{} {}", doc == other, other == doc);
            for x in &s.docs {
                let _ = write!(out, " {}", x == doc);
            }
            (out, None)
        }
        What::Clone => {
            let r = doc.clone();
            (format!("{} {}", r == *doc, js(&r)), Some(r))
        }
        What::Export => (say(&to_markdown(doc), |t| t.clone()), None),
        What::Import => {
            let r = from_markdown(&s.texts[c % s.texts.len()]);
            (say(&r, js), r.ok())
        }
        What::Marks => {
            let set = &s.sets[d.a as usize % s.sets.len()];
            let m = &s.marks[c % s.marks.len()];
            let a = m.add_to_set(Cow::Borrowed(set));
            let b = m.remove_from_set(Cow::Borrowed(set));
            let e = m.remove_from_set(Cow::Borrowed(&a));
            (format!("{} {} {} {} {}", js(&*a), js(&*b), js(&*e), set.contains(m), js(&m.clone().into_set())), None)
        }
        What::Sizes => {
            let mut out = String::new();
            sizes(doc, &mut out);
            (out, None)
        }
        What::Show => (format!("{:?}", doc), None),
        What::Steps => {
            let st = &s.steps[c % s.steps.len()];
            let j = js(st);
            let r = serde_json::from_str::<Step<MD>>(&j);
            (format!("{} {}", j, say(&r, |x| format!("{} {}", x == st, x == &s.steps[d.a as usize % s.steps.len()]))), None)
        }
        What::Slices => {
            let sl = &s.slices[c % s.slices.len()];
            let j = js(sl);
            let r = serde_json::from_str::<Slice<MD>>(&j);
            (format!("{} {}", j, say(&r, |x| format!("{} {:?}", x == sl, x))), None)
        }
        What::WalkPanics => {
            for k in 0..often(d) / 4 {
                let _ = guard(|| {
                    if let Some(f) = doc.content() {
                        let mut left = k % 4;
                        f.nodes_between(
                            0,
                            size,
                            &mut |_, _| {
                                if left == 0 {
                                    panic!("the visitor's own");
                                }
                                left -= 1;
                                true
                            },
                            0,
                        );
                    }
                });
            }
            let mut left = c % 4;
            if let Some(f) = doc.content() {
                f.nodes_between(
                    0,
                    size,
                    &mut |_, _| {
                        if left == 0 {
                            panic!("the visitor's own");
                        }
                        left -= 1;
                        true
                    },
                    0,
                );
            }
            (format!("{} left", left), None)
        }
        What::EncodeFails => {
            for k in 0..often(d) {
                let _ = guard(|| serde_json::to_writer(Fails((c + 13 * k) % 200, k % 5 == 0), doc).is_ok());
            }
            let r = serde_json::to_writer(Fails(c % 120, d.a % 2 == 0), doc);
            (say(&r, |_| "written".into()), None)
        }
        What::DecodeFails => {
            let b = &s.jsons[c % s.jsons.len()];
            for k in 0..often(d) / 2 {
                let _ = guard(|| serde_json::from_reader::<_, MarkdownNode>(Cut(&b[..(c + 13 * k) % b.len()], k % 5 == 0)).is_ok());
            }
            let r = serde_json::from_reader::<_, MarkdownNode>(Cut(&b[..d.b as usize % (b.len() + 1)], d.a % 2 == 0));
            (say(&r, js), r.ok())
        }
        What::Parts => {
            let mut out = String::new();
            let f = doc.content().cloned().unwrap_or_default();
            let g = s.slices[c % s.slices.len()].content.clone();
            let both = f.clone().append(g.clone());
            let _ = write!(out, "{} {} {:?}", both.size(), js(&both), f == g);
            if f.child_count() > 0 && g.child_count() > 0 {
                let i = d.a as usize % f.child_count();
                let h = f.replace_child(i, g.child(0).clone());
                let _ = write!(out, "{} {}", h.size(), js(&*h));
            }
            if doc.resolve(from).is_ok() && doc.resolve(to.min(size)).is_ok() {
                let k = f.cut(from..to.min(size));
                let _ = write!(out, "{} {}", k.size(), js(&k));
            }
            let v: Vec<MarkdownNode> = both.into();
            let m = doc.copy(|_| Fragment::from(v));
            (format!("{} {}", out, m.node_size()), None)
        }
    }
}

/// Everything a thread could ask about the shared values, after the threads are over.
pub fn afterwards(case: &Case, s: &Shared) -> Vec<String> {
    let mut wrong = vec![];
    for (i, d) in s.docs.iter().enumerate() {
        let r = guard(|| {
            let fresh = real_node(&case.docs[i]);
            let mut a = String::new();
            sizes(d, &mut a);
            positions(d, 0, 1, &mut a);
            let mut b = String::new();
            sizes(&fresh, &mut b);
            positions(&fresh, 0, 1, &mut b);
            if raw_tree(d) != case.docs[i] {
                Some(format!("became {}", js(d)))
            } else if *d != fresh || fresh != *d {
                Some("is not equal to itself any more".to_string())
            } else if a != b {
                Some(format!("resolves to {} instead of {}", a, b))
            } else if js(d) != js(&fresh) {
                Some(format!("is written {} instead of {}", js(d), js(&fresh)))
            } else {
                None
            }
        });
        match r {
            Ok(None) => {}
            Ok(Some(w)) => wrong.push(format!("the shared document {} {}", i, w)),
            Err(p) => wrong.push(format!("the shared document {}: panic: {}", i, p)),
        }
    }
    for (i, x) in s.slices.iter().enumerate() {
        if guard(|| *x == real_slice(&case.slices[i])) != Ok(true) || raw_slice(x) != case.slices[i] {
            wrong.push(format!("the shared slice {} changed", i));
        }
    }
    for (i, x) in s.steps.iter().enumerate() {
        if guard(|| *x == real_step(&case.steps[i])) != Ok(true) || raw_step(x) != case.steps[i] {
            wrong.push(format!("the shared step {} changed", i));
        }
    }
    wrong
}

// ---------------------------------------------------------------- dealing cases

/// The same with one unit of one text, or one attribute, changed: same sizes, other value.
fn twin(r: &mut Rng, n: &MNode) -> MNode {
    fn texts(n: &MNode) -> usize {
        (n.kind == Kind::Text) as usize + n.kids.iter().map(texts).sum::<usize>()
    }
    fn change(n: &mut MNode, left: &mut usize, to: char) {
        if n.kind == Kind::Text {
            if *left == 0 {
                let mut cs: Vec<char> = n.text.chars().collect();
                if let Some(i) = cs.iter().position(|c| c.len_utf8() == 1) {
                    cs[i] = if cs[i] == to { 'k' } else { to };
                }
                n.text = cs.into_iter().collect();
            }
            *left = left.wrapping_sub(1);
        }
        for k in &mut n.kids {
            change(k, left, to);
        }
    }
    let mut m = n.clone();
    let mut left = r.below(texts(n).max(1));
    change(&mut m, &mut left, *r.pick(&['z', 'q', 'w']));
    m
}

const PIECES: [&str; 26] = [
    "a", "b ", "word ", "*em* ", "**strong** ", "***both*** ", "`code` ", "[l](u \"t\") ", "![i](s) ", "\n\n", "\n\n", "# h\n\n",
    "## g\n\n", "> q\n\n", "- i\n", "- i\n\n", "1. o\n", "  - n\n", "```rs\nx\n```\n\n", "***\n\n", "\\\n", "  \n", "\n", "<b>", "    ind\n\n", "&amp;",
];

fn text(r: &mut Rng) -> String {
    let mut s = String::new();
    for _ in 0..1 + r.below(9) {
        let p: &str = r.pick::<&str>(&PIECES);
        s.push_str(p);
    }
    s
}

pub fn deal(seed: u64) -> Case {
    let mut r = Rng::new(seed);
    let r = &mut r;
    let taste = Taste {
        alphabet: r.weighted(&[3, 4, 3, 3, 2]) as u8,
        intents: vec![1; gen::INTENTS.len()],
        marked: *r.pick(&[0, 300, 600]),
        max_len: *r.pick(&[15, 30, 60, 120]),
        max_depth: r.range(2, 6),
    };
    let mut docs = vec![];
    while docs.is_empty() || (docs.len() < 4 && r.pm(500)) {
        if !docs.is_empty() && r.pm(500) {
            let i = r.below(docs.len());
            docs.push(twin(r, &docs[i]));
            continue;
        }
        let d = loop {
            let kids = gen::blocks(r, &taste, 0, 4);
            let t = toks_of(&kids);
            if t.len() <= taste.max_len * 2 && check_valid(&t).is_ok() {
                break MNode::new(Kind::Doc, trees_of(&t));
            }
        };
        docs.push(d);
    }
    // some are deep, and then everybody works at the bottom
    let deep = r.pm(40);
    if deep {
        let mut kids = vec![docs[0].clone()];
        kids[0].kind = Kind::Quote;
        for _ in 0..r.range(10, 50) {
            kids = vec![MNode::new(Kind::Quote, kids)];
        }
        docs = vec![MNode::new(Kind::Doc, kids)];
    }
    let mut steps = vec![];
    for _ in 0..1 + r.below(5) {
        let t = toks_of(&docs[r.below(docs.len())].kids);
        steps.push(if r.pm(850) { gen::edit(r, &taste, &t).1 } else { gen::hostile(r, &taste, &t) });
    }
    let mut slices = vec![];
    for _ in 0..1 + r.below(3) {
        let t = toks_of(&docs[r.below(docs.len())].kids);
        let ix = gen::Ix::new(&t);
        let (a, b) = ix.cut_pair(r);
        slices.push(if r.pm(800) {
            gen::cut_slice(&t, a, b, r.pm(200))
        } else {
            MSlice::flat(gen::blocks(r, &taste, 0, 2))
        });
    }
    let mut texts = vec![text(r)];
    while r.pm(600) {
        let t = if r.pm(400) {
            // the same length, another text
            let i = r.below(texts.len());
            let mut b: Vec<char> = texts[i].chars().collect();
            let j = r.below(b.len());
            if b[j].is_ascii_alphanumeric() {
                b[j] = 'z';
            }
            b.into_iter().collect()
        } else {
            text(r)
        };
        texts.push(t);
    }
    let marks = (0..1 + r.below(3)).map(|_| gen::mark(r, &taste)).collect();
    let n = if r.pm(if deep { 700 } else { 30 }) { r.range(4, 8) } else { *r.pick(&[2, 2, 2, 3, 3, 4]) };
    // often everybody does the same
    let theme = if deep && r.pm(700) {
        Some(*r.pick(&[What::Apply, What::Apply, What::Replace, What::Positions, What::Export]))
    } else if r.pm(400) {
        Some(*r.pick(&WHATS))
    } else {
        None
    };
    let alike = r.pm(if deep { 600 } else { 300 });
    let len = *r.pick(&[1, 2, 4, 8, 16]);
    let mut threads: Vec<Vec<Do>> = vec![];
    for t in 0..n {
        if alike && t > 0 && r.pm(700) {
            let c = threads[0].clone();
            threads.push(c);
            continue;
        }
        threads.push(
            (0..1 + r.below(len))
                .map(|_| Do {
                    what: match theme {
                        Some(w) if r.pm(700) => w,
                        _ => WHATS[r.weighted(&WEIGHTS)],
                    },
                    on: match r.below(10) {
                        0..=5 => On::Base(r.below(docs.len()) as u32),
                        6..=7 => On::Own,
                        _ => On::Of(r.below(n) as u32),
                    },
                    a: r.below(1 << 16) as u64,
                    b: r.below(1 << 16) as u64,
                    c: r.below(1 << 16) as u64,
                    then: *r.pick(&[Then::Keep, Then::Publish, Then::Drop]),
                })
                .collect(),
        );
    }
    Case {
        docs,
        slices,
        steps,
        texts,
        marks,
        threads,
        seed: r.next(),
        gap: *r.pick(&[3, 30, 300, 300, 3000, 3000, 20_000]),
        hot: *r.pick(&[0, 300, 900]),
        stall: *r.pick(&[0, 0, 100, 500]),
        first: r.below(n) as u64,
        switches: None,
    }
}
