//! Questions put to a document in the middle of a run: positions, ranges, fits, encodings. Each is
//! answered by the library and by the model.

use crate::bridge::*;
use crate::disk::{SimReader, SimWriter, WriteEnd};
use crate::gen;
use crate::json::Dialect;
use crate::model::*;
use crate::rng::Rng;
use crate::world::{cut as shorten, decode_step, encode, outcome_eq, raw_apply, show, show_outcome, show_step, World};
use prosemirror::markdown::{MarkdownContentMatch, MarkdownNode, MarkdownNodeType, MD};
use prosemirror::model::{ContentMatch, Fragment, Mark as _, MarkSet, Node, NodeType, Slice};
use prosemirror::transform::Step;
use serde::{Deserialize, Serialize};
use std::borrow::Cow;
use std::convert::TryFrom;
use std::io::BufReader;
use std::ops::Bound;
use std::rc::Rc;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum What {
    /// resolving positions
    Positions,
    /// reading ranges
    Views,
    /// asking whether something fits
    Fit,
    /// encoding and decoding through bad streams
    Streams,
    /// the same step for the document and a freshly decoded copy
    Twin,
    /// adding to and removing from mark sets
    Sets,
    /// taking content apart and putting it together
    Parts,
    /// another implementation reads and follows
    Peer,
}

pub const ALL: [What; 8] = [
    What::Positions,
    What::Views,
    What::Fit,
    What::Streams,
    What::Twin,
    What::Sets,
    What::Parts,
    What::Peer,
];

pub fn run(w: &mut World, who: &str, doc: &MarkdownNode, toks: &Rc<Toks>, what: What, seed: u64) {
    let mut r = Rng::new(seed);
    match what {
        What::Positions => {
            w.count("probe.positions");
            positions(w, who, doc, toks, &mut r)
        }
        What::Views => {
            w.count("probe.views");
            views(w, who, doc, toks, &mut r)
        }
        What::Fit => {
            w.count("probe.fit");
            fit(w, who, doc, toks, &mut r)
        }
        What::Streams => {
            w.count("probe.streams");
            streams(w, who, doc, toks, &mut r)
        }
        What::Twin => {
            w.count("probe.twin");
            twin(w, who, doc, toks, &mut r)
        }
        What::Sets => {
            w.count("probe.sets");
            sets(w, who, doc, &mut r)
        }
        What::Peer => {
            w.count("probe.peer");
            crate::peer::run(w, who, doc, toks, &mut r)
        }
        What::Parts => {
            w.count("probe.parts");
            crate::parts::run(w, who, doc, &mut r);
            if !w.stop && toks.len() < 3000 {
                crate::parts::replaced(w, who, doc, toks, &mut r)
            }
        }
    }
}

/// A node with content, found by walking the public tree; sizes come from the tokens.
struct Place<'a> {
    node: &'a MarkdownNode,
    /// index of its open token, usize::MAX for the root
    open: usize,
    start: usize,
    end: usize,
}

pub struct Seen<'a> {
    pub node: &'a MarkdownNode,
    pos: usize,
    end: usize,
    depth: usize,
}

impl Seen<'_> {
    pub fn at(&self) -> usize {
        self.pos
    }
}

/// All nodes below `root` in document order with their positions, from the public tree alone.
pub fn walk<'a>(root: &'a MarkdownNode) -> Vec<Seen<'a>> {
    fn go<'a>(n: &'a MarkdownNode, at: usize, depth: usize, out: &mut Vec<Seen<'a>>) -> usize {
        let mut pos = at;
        if let Some(f) = frag_of(n) {
            for k in f.children() {
                let i = out.len();
                out.push(Seen {
                    node: k,
                    pos,
                    end: 0,
                    depth,
                });
                let size = match k {
                    MarkdownNode::Text(t) => t.text.as_str().encode_utf16().count(),
                    _ if frag_of(k).is_some() => go(k, pos + 1, depth + 1, out) - pos + 1,
                    _ => 1,
                };
                pos += size;
                out[i].end = pos;
            }
        }
        pos
    }
    let mut v = vec![];
    go(root, 0, 1, &mut v);
    v
}

fn places<'a>(doc: &'a MarkdownNode, seen: &[Seen<'a>], len: usize) -> Vec<Place<'a>> {
    let mut v = vec![Place {
        node: doc,
        open: gen::ROOT,
        start: 0,
        end: len,
    }];
    for s in seen {
        if frag_of(s.node).is_some() {
            v.push(Place {
                node: s.node,
                open: s.pos,
                start: s.pos + 1,
                end: s.end - 1,
            });
        }
    }
    v
}

fn as_text(n: &MarkdownNode) -> Option<String> {
    match n {
        MarkdownNode::Text(t) => Some(t.text.as_str().to_string()),
        _ => None,
    }
}

// ---- positions ----

pub fn positions(w: &mut World, who: &str, doc: &MarkdownNode, toks: &Rc<Toks>, r: &mut Rng) {
    let seen = walk(doc);
    // sometimes an inner node is the root
    let all = places(doc, &seen, toks.len());
    let root = if r.pm(800) {
        &all[0]
    } else {
        &all[r.below(all.len())]
    };
    let inner: Vec<Seen>;
    let (root_node, toks, seen): (&MarkdownNode, Toks, &Vec<Seen>) = if root.open == gen::ROOT {
        (doc, (**toks).clone(), &seen)
    } else {
        inner = walk(root.node);
        (root.node, toks[root.start..root.end].to_vec(), &inner)
    };
    if r.pm(150) && !same_place(w, who, r) {
        return;
    }
    let n = toks.len();
    let list: Vec<usize> = if n <= 90 {
        (0..=n + 2).collect()
    } else {
        let mut v: Vec<usize> = (0..70).map(|_| r.below(n + 1)).collect();
        v.extend([0, n, n + 1, n + 2]);
        v
    };
    for p in list
        .into_iter()
        .chain([usize::MAX, usize::MAX / 2, n + 1000])
    {
        if !position(w, who, root_node, &toks, seen, p, r) {
            return;
        }
    }
}

/// A document that comes to be where another one of the same size was, divided in another way.
fn same_place(w: &mut World, who: &str, r: &mut Rng) -> bool {
    for _ in 0..6 {
        w.count("positions.same_place");
        let mut sizes: Vec<usize> = (0..r.range(2, 5)).map(|_| r.below(9)).collect();
        let inline = r.pm(300);
        let make = |sizes: &[usize]| {
            let kids: Vec<MNode> = sizes
                .iter()
                .enumerate()
                .map(|(i, n)| match inline {
                    true => MNode::text(&"a".repeat(n + 1), if i % 2 == 0 { vec![] } else { vec![Mark::Em] }),
                    false if *n == 0 => MNode::new(Kind::Para, vec![]),
                    false => MNode::new(Kind::Para, vec![MNode::text(&"a".repeat(*n), vec![])]),
                })
                .collect();
            let kids = if inline { vec![MNode::new(Kind::Para, kids)] } else { kids };
            MNode::new(Kind::Doc, kids)
        };
        let one = make(&sizes);
        let n = toks_of(&one.kids).len();
        let (k, turn) = (r.below(n + 1), 1 + r.below(sizes.len() - 1));
        let edges: Vec<usize> = (0..n).filter(|p| ancestors(&toks_of(&one.kids), *p) != ancestors(&toks_of(&one.kids), p.saturating_sub(1))).collect();
        let k = if r.coin() && !edges.is_empty() { *r.pick(&edges) } else { k };
        sizes.rotate_left(turn);
        let two = make(&sizes);
        let toks: Toks = toks_of(&two.kids);
        let p = r.below(n + 1);
        let x = real_node(&one);
        let _ = guard(|| x.resolve(k).is_ok());
        drop(x);
        let y = real_node(&two);
        let seen = walk(&y);
        if !position(w, &format!("{}, where there was {} looked up at {}", who, Dialect::canonical().node(&one), k), &y, &toks, &seen, p, r) {
            return false;
        }
    }
    true
}

fn position(
    w: &mut World,
    who: &str,
    root: &MarkdownNode,
    toks: &Toks,
    seen: &[Seen],
    p: usize,
    r: &mut Rng,
) -> bool {
    w.count("positions.resolved");
    let tags: &[&str] = &["C10"];
    let ctx = |d: String| format!("{}\n position {} at {} of [{}]", d, p, who, show(toks));
    let legal = p <= toks.len() && is_boundary(toks, p);
    let rp = match guard(|| root.resolve(p)) {
        Err(e) => {
            w.flag("panic while resolving", &["C10", "C03"], ctx(e));
            return false;
        }
        Ok(x) => x,
    };
    let rp = match (legal, rp) {
        (false, Err(e)) => {
            w.count("positions.refused");
            w.count("refusals");
            let place = crate::reason::Place {
                root: Ty::Doc,
                toks,
                order: vec![p],
            };
            if let Err(d) = crate::reason::position(&place, &e) {
                w.flag("a position is refused for a reason that is none", &["C20"], ctx(format!("{}\n {}", e, d)));
            }
            return true;
        }
        (false, Ok(_)) => {
            w.flag("an impossible position resolves", tags, ctx(String::new()));
            return false;
        }
        (true, Err(e)) => {
            w.flag("a position does not resolve", tags, ctx(format!("{}", e)));
            return false;
        }
        (true, Ok(rp)) => rp,
    };
    let chain = ancestors(toks, p);
    let depth = chain.len();
    // truth, from the public tree
    struct Level<'a> {
        node: &'a MarkdownNode,
        start: usize,
        end: usize,
        index: usize,
        after: usize,
        kids: Vec<usize>,
    }
    let mut levels: Vec<Level> = vec![];
    for d in 0..=depth {
        let (node, start, end) = if d == 0 {
            (root, 0, toks.len())
        } else {
            let s = seen
                .iter()
                .find(|s| s.pos == chain[d - 1] && s.depth == d)
                .expect("a node opens here");
            (s.node, s.pos + 1, s.end - 1)
        };
        let kids: Vec<usize> = (0..seen.len())
            .filter(|i| seen[*i].depth == d + 1 && seen[*i].pos >= start && seen[*i].end <= end)
            .collect();
        let (index, after) = if d < depth {
            let i = kids
                .iter()
                .position(|k| seen[*k].pos == chain[d])
                .unwrap();
            (i, i + 1)
        } else {
            let full = kids.iter().filter(|k| seen[**k].end <= p).count();
            let inside = kids.iter().any(|k| seen[*k].pos < p && p < seen[*k].end);
            (full, if inside { full + 1 } else { full })
        };
        levels.push(Level {
            node,
            start,
            end,
            index,
            after,
            kids,
        });
    }
    let last = &levels[depth];
    let in_text = last
        .kids
        .iter()
        .map(|k| &seen[*k])
        .find(|s| s.pos < p && p < s.end);
    let off = in_text.map_or(0, |s| p - s.pos);
    let others: Vec<usize> = (0..4).map(|_| r.below(toks.len() + 1)).collect();
    let res = guard(|| -> Vec<String> {
        let mut bad = vec![];
        macro_rules! eq {
            ($name:expr, $got:expr, $want:expr) => {
                let (g, x) = ($got, $want);
                if g != x {
                    bad.push(format!("{}: {:?} instead of {:?}", $name, g, x));
                }
            };
        }
        if !std::ptr::eq(rp.doc(), root) {
            bad.push("doc".into());
        }
        if !std::ptr::eq(rp.parent(), last.node) {
            bad.push(format!("parent: {:?}", kind_of(rp.parent())));
            return bad;
        }
        for (d, l) in levels.iter().enumerate() {
            if !std::ptr::eq(rp.node(d), l.node) {
                bad.push(format!("node({}): {:?}", d, kind_of(rp.node(d))));
            }
            eq!(format!("index({})", d), rp.index(d), l.index);
            eq!(format!("index_after({})", d), rp.index_after(d), l.after);
            eq!(format!("start({})", d), rp.start(d), l.start);
            eq!(format!("end({})", d), rp.end(d), l.end);
            let (b, a) = if d == 0 {
                (None, None)
            } else {
                (Some(l.start - 1), Some(l.end + 1))
            };
            eq!(format!("before({})", d), rp.before(d), b);
            eq!(format!("after({})", d), rp.after(d), a);
        }
        eq!("before(depth+1)", rp.before(depth + 1), Some(p));
        eq!("after(depth+1)", rp.after(depth + 1), Some(p));
        eq!("text_offset", rp.text_offset(), off);
        // neighbours
        let nb = rp.node_before();
        let na = rp.node_after();
        match in_text {
            Some(s) => {
                let t = as_text(s.node).unwrap_or_default();
                let units: Vec<u16> = t.encode_utf16().collect();
                let left = String::from_utf16_lossy(&units[..off]);
                let right = String::from_utf16_lossy(&units[off..]);
                for (name, got, want) in [("node_before", &nb, left), ("node_after", &na, right)] {
                    match got.as_deref() {
                        Some(MarkdownNode::Text(x)) => {
                            eq!(name, x.text.as_str(), &want[..]);
                            eq!(name, x.text.len_utf16(), want.encode_utf16().count());
                            if let MarkdownNode::Text(o) = s.node {
                                if o.marks != x.marks {
                                    bad.push(format!("{}: marks", name));
                                }
                            }
                        }
                        x => bad.push(format!("{}: {:?}", name, x)),
                    }
                }
            }
            None => {
                let b = last.kids.iter().map(|k| &seen[*k]).find(|s| s.end == p);
                let a = last.kids.iter().map(|k| &seen[*k]).find(|s| s.pos == p);
                for (name, got, want) in [("node_before", &nb, b), ("node_after", &na, a)] {
                    match (got.as_deref(), want) {
                        (None, None) => {}
                        (Some(x), Some(y)) if *x == *y.node => {}
                        (x, y) => bad.push(format!(
                            "{}: {:?} instead of {:?}",
                            name,
                            x,
                            y.map(|s| s.node)
                        )),
                    }
                }
            }
        }
        for o in &others {
            // the deepest node that contains both
            let mut sd = 0;
            for (d, l) in levels.iter().enumerate() {
                if l.start <= *o && *o <= l.end {
                    sd = d;
                }
            }
            eq!(format!("shared_depth({})", o), rp.shared_depth(*o), sd);
        }
        // a value like any other: copies are equal, another position is not
        let copy = rp.clone();
        if copy != rp || root.resolve(p).ok().as_ref() != Some(&copy) {
            bad.push(format!("a copy differs: {:?}", copy));
        }
        if let Some(Ok(other)) = others.iter().find(|o| **o != p && is_boundary(toks, **o)).map(|o| root.resolve(*o)) {
            if other == rp {
                bad.push(format!("equal to {:?}", other));
            }
        }
        if copy.shared_depth(p) != depth {
            bad.push(format!("shares depth {} with itself", copy.shared_depth(p)));
        }
        bad
    });
    match res {
        Err(e) => {
            w.flag("panic in a resolved position", tags, ctx(e));
            false
        }
        Ok(bad) if !bad.is_empty() => {
            w.flag("a resolved position is wrong", tags, ctx(bad.join("; ")));
            false
        }
        _ => true,
    }
}

// ---- ranges ----

/// The same range in one of the forms the range traits allow.
pub fn bounds(r: &mut Rng, a: usize, b: usize, len: usize) -> (Bound<usize>, Bound<usize>) {
    let s = match r.below(4) {
        0 if a == 0 => Bound::Unbounded,
        1 if a > 0 => Bound::Excluded(a - 1),
        _ => Bound::Included(a),
    };
    let e = match r.below(4) {
        0 if b == len => Bound::Unbounded,
        1 if b > 0 => Bound::Included(b - 1),
        _ => Bound::Excluded(b),
    };
    (s, e)
}

fn check_frag(w: &mut World, ctx: &dyn Fn(String) -> String, f: &Fragment<MD>, want: &[MNode], what: &str) -> bool {
    let mut faults = vec![];
    let mut t = vec![];
    let r = guard(|| unguarded(|| read_frag(f, &mut t, &mut faults)));
    if let Err(e) = r {
        w.flag(&format!("panic while reading a {}", what), &["C12"], ctx(e));
        return false;
    }
    let got = raw_trees(f);
    let same = if w.as_prop.is_some() {
        // only normal text comes in known pieces
        toks_of(&got) == toks_of(want)
    } else {
        got == want
    };
    if !same {
        let mut d = Dialect::canonical();
        let d = format!("expected {}\n got      {}", d.nodes(want), d.nodes(&got));
        w.flag(&format!("a {} is wrong", what), &["C12"], ctx(d));
        return false;
    }
    for (p, d) in faults {
        if w.as_prop.is_some() && p != "C10" {
            continue;
        }
        w.flag(&format!("a {} is malformed", what), &[p, "C12"], ctx(d));
        return false;
    }
    true
}

pub fn views(w: &mut World, who: &str, doc: &MarkdownNode, toks: &Rc<Toks>, r: &mut Rng) {
    let seen = walk(doc);
    let all = places(doc, &seen, toks.len());
    for _ in 0..10 {
        let pl = if r.pm(700) {
            &all[0]
        } else {
            &all[r.below(all.len())]
        };
        if !view(w, who, pl.node, &toks[pl.start..pl.end], r) {
            return;
        }
    }
    // parts of texts
    let texts: Vec<&Seen> = seen
        .iter()
        .filter(|s| matches!(s.node, MarkdownNode::Text(_)) && s.end > s.pos)
        .collect();
    if !texts.is_empty() {
        for _ in 0..4 {
            let s = texts[r.below(texts.len())];
            let t = &toks[s.pos..s.end];
            let cuts: Vec<usize> = (0..=t.len()).filter(|i| is_boundary(t, *i)).collect();
            let (a, b) = (*r.pick(&cuts), *r.pick(&cuts));
            let (a, b) = (a.min(b), a.max(b));
            let range = bounds(r, a, b, t.len());
            let got = guard(|| s.node.cut(range).into_owned());
            let want = if a == b {
                String::new()
            } else {
                trees_of(&t[a..b])[0].text.clone()
            };
            match got {
                Ok(MarkdownNode::Text(x))
                    if x.text.as_str() == want
                        && x.text.len_utf16() == b - a
                        && marks_of(&x.marks) == trees_of(t)[0].marks => {}
                other => {
                    w.flag(
                        "a cut of a text is wrong",
                        &["C12"],
                        format!("{}..{} of {:?} at {}: {:?}", a, b, s.node, who, other),
                    );
                    return;
                }
            }
        }
    }
}

fn view(w: &mut World, who: &str, root: &MarkdownNode, t: &[Tok], r: &mut Rng) -> bool {
    w.count("ranges.read");
    let ix = gen::Ix::new(t);
    let n = t.len();
    let (mut a, mut b) = ix.cut_pair(r);
    match r.below(12) {
        0 => a = 0,
        1 => b = n,
        2 => {
            a = 0;
            b = n
        }
        3 => b = a,
        _ => {}
    }
    let kind = format!("{:?}", kind_of(root));
    let ctx = |d: String| format!("{}\n {}..{} of {} at {} [{}]", d, a, b, kind, who, show(t));
    let frag = match frag_of(root) {
        Some(f) => f,
        None => return true,
    };
    // cutting
    let range = bounds(r, a, b, n);
    let want = gen::cut_slice(t, a, b, true).content;
    match guard(|| root.cut(range).into_owned()) {
        Err(e) => {
            w.flag("panic while cutting", &["C12", "C03"], ctx(e));
            return false;
        }
        Ok(c) => {
            if kind_of(&c) != kind_of(root) {
                w.flag("a cut node changes", &["C12"], ctx(format!("{:?}", kind_of(&c))));
                return false;
            }
            match frag_of(&c) {
                Some(f) => {
                    if !check_frag(w, &ctx, f, &want, "cut node") {
                        return false;
                    }
                }
                None => return true,
            }
        }
    }
    match guard(|| frag.cut(range)) {
        Err(e) => {
            w.flag("panic while cutting", &["C12", "C03"], ctx(e));
            return false;
        }
        Ok(c) => {
            if !check_frag(w, &ctx, &c, &want, "cut content") {
                return false;
            }
            // and what is left on both sides puts it together again
            let back = guard(|| frag.cut(..a).append(frag.cut(a..b)).append(frag.cut(b..)));
            match back {
                Err(e) => {
                    w.flag("panic while joining cuts", &["C12", "C03"], ctx(e));
                    return false;
                }
                Ok(f) => {
                    let shallow = ancestors(t, a).is_empty() && ancestors(t, b).is_empty();
                    if shallow && !check_frag(w, &ctx, &f, &trees_of(t), "content joined from its parts") {
                        return false;
                    }
                }
            }
        }
    }
    // slicing
    let parents = r.pm(300);
    let want = gen::cut_slice(t, a, b, parents);
    let range = bounds(r, a, b, n);
    match guard(|| root.slice(range, parents)) {
        Err(e) => {
            w.flag("panic while slicing", &["C12", "C03", "C09"], ctx(e));
            return false;
        }
        Ok(Err(e)) => {
            w.flag("slicing fails", &["C12"], ctx(format!("{}", e)));
            return false;
        }
        Ok(Ok(s)) => {
            if !check_frag(w, &ctx, &s.content, &want.content, "slice") {
                return false;
            }
            if (s.open_start, s.open_end) != (want.os, want.oe) {
                w.flag(
                    "the open depths of a slice are wrong",
                    &["C12"],
                    ctx(format!(
                        "({}, {}) instead of ({}, {})",
                        s.open_start, s.open_end, want.os, want.oe
                    )),
                );
                return false;
            }
        }
    }
    // what must not be sliced
    let mut badpos: Vec<usize> = vec![n + 1, n + 7, usize::MAX - 1];
    badpos.extend((0..n).filter(|i| !is_boundary(t, *i)).take(2));
    let x = *r.pick(&badpos);
    let y = if a == x { b } else { a };
    if x != y {
        let (lo, hi) = (x.min(y), x.max(y));
        let (lo, hi) = if r.pm(100) { (hi, lo) } else { (lo, hi) };
        match guard(|| root.slice(lo..hi, parents).err()) {
            Err(e) => {
                w.flag("panic while slicing", &["C10", "C03"], ctx(format!("{} for {}..{}", e, lo, hi)));
                return false;
            }
            Ok(None) => {
                w.flag(
                    "an impossible range is sliced",
                    &["C10", "C12"],
                    ctx(format!("{}..{}", lo, hi)),
                );
                return false;
            }
            Ok(Some(e)) => {
                w.count("refusals");
                let place = crate::reason::Place {
                    root: Ty::Doc,
                    toks: t,
                    order: vec![lo, hi],
                };
                if let Err(d) = crate::reason::range(&place, &e) {
                    w.flag(
                        "a range is refused for a reason that is none",
                        &["C20"],
                        ctx(format!("{}..{}: {:?}\n {}", lo, hi, e, d)),
                    );
                }
            }
        }
    }
    if a == b {
        return true;
    }
    // walking
    let seen = walk(root);
    let mut closed: Vec<usize> = vec![];
    // an empty text shares its position with its neighbour
    if r.coin() && seen.iter().all(|s| s.pos < s.end) {
        for s in &seen {
            if r.pm(250) {
                closed.push(s.pos);
            }
        }
    }
    let offset = *r.pick(&[0usize, 1, 17]);
    let mut want: Vec<(usize, *const MarkdownNode)> = vec![];
    let mut skip_to = 0;
    for s in &seen {
        if s.pos < skip_to || s.pos >= b || s.end <= a {
            continue;
        }
        want.push((s.pos + offset, s.node as *const _));
        if closed.contains(&s.pos) {
            skip_to = s.end;
        }
    }
    let mut got: Vec<(usize, *const MarkdownNode)> = vec![];
    // what a visitor finds out about the nodes while the walk goes on
    let mut inner: Vec<(*const MarkdownNode, Outline)> = vec![];
    let nested = if r.pm(300) { 12 } else { 0 };
    let res = guard(|| {
        frag.nodes_between(
            a,
            b,
            &mut |n: &MarkdownNode, p| {
                got.push((p, n as *const _));
                if inner.len() < nested {
                    inner.push((n as *const _, outline(n)));
                }
                !closed.contains(&p.wrapping_sub(offset))
            },
            offset,
        )
    });
    if let Err(e) = res {
        w.flag("panic while walking", &["C12", "C03"], ctx(e));
        return false;
    }
    w.count_n("nodes.walked", got.len() as u64);
    for s in &seen {
        for (n, o) in &inner {
            if *n == s.node as *const _ && guard(|| outline(s.node)).as_ref() != Ok(o) {
                w.flag(
                    "a visitor is told something else than others",
                    &["C12"],
                    ctx(format!("{:?} of the node at {}", o, s.pos)),
                );
                return false;
            }
        }
    }
    if w.as_prop.is_some() {
        // whether an empty text overlaps anything is a matter of taste
        let none: Vec<*const MarkdownNode> =
            seen.iter().filter(|s| s.pos == s.end).map(|s| s.node as *const _).collect();
        want.retain(|x| !none.contains(&x.1));
        got.retain(|x| !none.contains(&x.1));
    }
    if got != want {
        let p = |v: &[(usize, *const MarkdownNode)]| v.iter().map(|x| x.0).collect::<Vec<_>>();
        w.flag(
            "a walk visits the wrong nodes",
            &["C12"],
            ctx(format!(
                "positions {:?} instead of {:?}, not below {:?}, offset {}",
                p(&got),
                p(&want),
                closed,
                offset
            )),
        );
        return false;
    }
    // text
    let leaf = *r.pick(&[None, Some("*"), Some(""), Some("[leaf]")]);
    let rule = seen
        .iter()
        .any(|s| matches!(s.node, MarkdownNode::HorizontalRule) && s.pos < b && s.end > a);
    let sep = if rule || seen.iter().any(|s| s.pos == s.end) {
        None
    } else {
        *r.pick(&[None, Some("|"), Some("\n\n"), Some("")])
    };
    let separated = r.coin();
    let prefix = *r.pick(&["", "pre"]);
    let mut want = prefix.to_string();
    let mut done = separated;
    for s in &seen {
        if s.pos >= b || s.end <= a {
            continue;
        }
        match s.node {
            MarkdownNode::Text(x) => {
                let u: Vec<u16> = x.text.as_str().encode_utf16().collect();
                let (f, e) = (a.max(s.pos) - s.pos, b.min(s.end) - s.pos);
                want.push_str(&String::from_utf16_lossy(&u[f..e]));
                done = sep.is_none();
            }
            x if frag_of(x).is_none() => {
                want.push_str(leaf.unwrap_or(""));
                done = sep.is_none();
            }
            _ => {
                if !done {
                    want.push_str(sep.unwrap_or(""));
                    done = true;
                }
            }
        }
    }
    let mut got = prefix.to_string();
    let res = guard(|| frag.text_between(&mut got, separated, a, b, sep, leaf));
    if let Err(e) = res {
        w.flag("panic while collecting text", &["C12", "C03"], ctx(e));
        return false;
    }
    if got != want {
        w.flag(
            "collected text is wrong",
            &["C12"],
            ctx(format!(
                "{:?} instead of {:?} (separated {}, separator {:?}, leaf {:?})",
                got, want, separated, sep, leaf
            )),
        );
        return false;
    }
    let u: Vec<u16> = t
        .iter()
        .filter_map(|t| if let Tok::U(u, _) = t { Some(*u) } else { None })
        .collect();
    let want = String::from_utf16_lossy(&u);
    match guard(|| root.text_content()) {
        Ok(s) if s == want => true,
        other => {
            w.flag(
                "text content is wrong",
                &["C12"],
                ctx(format!("{:?} instead of {:?}", other, want)),
            );
            false
        }
    }
}

// ---- mark sets ----

type Outline = (String, usize, String, Option<usize>, bool);

/// Something about a node that takes reading, walking, resolving, cutting and encoding.
fn outline(n: &MarkdownNode) -> Outline {
    let size = n.content_size();
    let mut count = 0;
    if let Some(c) = n.content() {
        c.nodes_between(
            0,
            size,
            &mut |_, _| {
                count += 1;
                true
            },
            0,
        );
    }
    let json = if size < 200 { serde_json::to_string(n).unwrap_or_default() } else { String::new() };
    let at = n.resolve(size / 2).ok().map(|p| p.text_offset() + p.start(0) + p.end(0));
    let again = n.slice(.., false).ok().and_then(|s| n.replace(.., &s).ok()).map_or(false, |m| m == *n);
    (n.text_content(), count, json, at, again)
}

fn sets(w: &mut World, who: &str, doc: &MarkdownNode, r: &mut Rng) {
    let seen = walk(doc);
    let texts: Vec<&Seen> = seen
        .iter()
        .filter(|s| matches!(s.node, MarkdownNode::Text(_)))
        .collect();
    let taste = w.cfg.taste.clone();
    for _ in 0..12 {
        // a set from the document, then a few changes
        let mut set: MarkSet<MD> = match r.below(4) {
            0 | 1 if !texts.is_empty() => match texts[r.below(texts.len())].node {
                MarkdownNode::Text(t) => t.marks.clone(),
                _ => MarkSet::default(),
            },
            2 => real_mark(&gen::mark(r, &taste)).into_set(),
            _ => MarkSet::default(),
        };
        let mut want = marks_of(&set);
        let mut log = format!("{:?}", want);
        for _ in 0..1 + r.below(6) {
            let m = if !want.is_empty() && r.coin() {
                want[r.below(want.len())].clone()
            } else {
                gen::mark(r, &taste)
            };
            let real = real_mark(&m);
            let add = r.coin();
            log.push_str(&format!(" {} {:?}", if add { "+" } else { "-" }, m));
            if add {
                want.retain(|x| x.rank() != m.rank());
                want.push(m.clone());
                want.sort_by_key(|x| x.rank());
            } else {
                want.retain(|x| *x != m);
            }
            let old = set.clone();
            let how = r.below(3);
            let got = guard(|| match (add, how) {
                (true, 0) => set.add(&real),
                (false, 0) => set.remove(&real),
                (true, 1) => set = real.add_to_set(Cow::Borrowed(&old)).into_owned(),
                (false, 1) => set = real.remove_from_set(Cow::Borrowed(&old)).into_owned(),
                (true, _) => set = real.add_to_set(Cow::Owned(old)).into_owned(),
                (false, _) => set = real.remove_from_set(Cow::Owned(old)).into_owned(),
            });
            w.count("sets.changed");
            let fine = got.is_ok()
                && marks_of(&set) == want
                && set.is_empty() == want.is_empty()
                && set.contains(&real) == want.contains(&m);
            if !fine {
                w.flag(
                    "a mark set is wrong after a change",
                    &["C06"],
                    format!("{} (way {}): {:?} {:?} at {}", log, how, got, marks_of(&set), who),
                );
                return;
            }
        }
        // a node with another set is otherwise the same
        if !seen.is_empty() {
            let s = seen[r.below(seen.len())].node;
            let got = guard(|| s.mark(set.clone()));
            let mut tree = raw_tree(s);
            if tree.ty() == Ty::Text {
                tree.marks = want.clone();
            }
            match got {
                Ok(n) if raw_tree(&n) == tree && n.node_size() == s.node_size() => {}
                got => {
                    w.flag(
                        "a node with other marks is wrong",
                        &["C06"],
                        format!("{:?} with {:?}: {:?} at {}", s, want, got, who),
                    );
                    return;
                }
            }
        }
    }
}

// ---- fits ----

pub fn node_type(t: Ty) -> MarkdownNodeType {
    match t {
        Ty::Doc => MarkdownNodeType::Doc,
        Ty::Heading => MarkdownNodeType::Heading,
        Ty::Code => MarkdownNodeType::CodeBlock,
        Ty::Quote => MarkdownNodeType::Blockquote,
        Ty::Para => MarkdownNodeType::Paragraph,
        Ty::Bullet => MarkdownNodeType::BulletList,
        Ty::Ordered => MarkdownNodeType::OrderedList,
        Ty::Item => MarkdownNodeType::ListItem,
        Ty::Rule => MarkdownNodeType::HorizontalRule,
        Ty::Break => MarkdownNodeType::HardBreak,
        Ty::Image => MarkdownNodeType::Image,
        Ty::Text => MarkdownNodeType::Text,
    }
}

fn match_state(ty: Ty, n: usize, m: MarkdownContentMatch) -> Vec<String> {
    let mut bad = vec![];
    if m.valid_end() != ty.end_ok(n) {
        bad.push(format!("valid_end is {}", m.valid_end()));
    }
    for t in ALL_TY {
        let can = m.match_type(node_type(t)).is_some();
        if can != ty.next_ok(n, t) {
            bad.push(format!("match_type({:?}) is {}", t, can));
        }
    }
    bad
}

fn fit(w: &mut World, who: &str, doc: &MarkdownNode, toks: &Rc<Toks>, r: &mut Rng) {
    let seen = walk(doc);
    let all = places(doc, &seen, toks.len());
    let taste = w.cfg.taste.clone();
    for _ in 0..8 {
        let pl = &all[r.below(all.len())];
        let kids: Vec<&Seen> = {
            let depth = if pl.open == gen::ROOT {
                1
            } else {
                ancestors(toks, pl.start).len() + 1
            };
            seen.iter()
                .filter(|s| s.depth == depth && s.pos >= pl.start && s.end <= pl.end)
                .collect()
        };
        let ty = kind_of(pl.node).ty();
        let i = r.below(kids.len() + 1);
        let j = r.range(i, kids.len());
        // content that comes from the document, or new content, more or less suitable
        let mut content: Vec<MNode> = vec![];
        for _ in 0..r.below(4) {
            let n = match r.below(8) {
                0 | 1 if !seen.is_empty() => raw_tree(seen[r.below(seen.len())].node),
                2 | 3 => match ty {
                    Ty::Bullet | Ty::Ordered => gen::item(r, &taste, 1),
                    t if t.textblock() => {
                        let m = if t.allows_marks() || r.pm(200) {
                            gen::marks(r, &taste)
                        } else {
                            vec![]
                        };
                        MNode::text(&gen::word(r, &taste, 3), m)
                    }
                    _ => gen::block(r, &taste, 1),
                },
                4 if ty == Ty::Item => MNode::new(Kind::Para, gen::inline(r, &taste, Ty::Para)),
                _ => gen::any_node(r, &taste),
            };
            content.push(n);
        }
        // or a lot of it, for this node or for another
        if r.pm(20) {
            let (t, n) = (if r.pm(600) { ty } else { *r.pick(&[ty, Ty::Para, Ty::Doc, Ty::Bullet]) }, gen::many(r));
            content.extend(gen::crowd(r, &taste, t, n));
            if r.pm(300) {
                let last = gen::any_node(r, &taste);
                content.push(last);
            }
            if r.pm(300) {
                let m = gen::marks(r, &taste);
                if let Some(n) = content.last_mut().filter(|n| n.ty() == Ty::Text) {
                    n.marks = m;
                }
            }
        }
        let mut content = gen::join_text(content);
        // texts that were never joined
        if r.pm(15) && ty.textblock() {
            let n = gen::many(r);
            let late = r.pm(700).then(|| r.below(n).max(r.below(n)));
            content = (0..n)
                .map(|i| MNode::text("a", if late == Some(i) { gen::marks(r, &taste) } else { vec![] }))
                .collect();
        }
        let s = r.below(content.len() + 1);
        let e = r.range(s, content.len());
        let (s, e) = if r.pm(600) { (0, content.len()) } else { (s, e) };
        let part = &content[s..e];
        let mut types: Vec<Ty> = kids[..i].iter().map(|k| kind_of(k.node).ty()).collect();
        types.extend(part.iter().map(|n| n.ty()));
        types.extend(kids[j..].iter().map(|k| kind_of(k.node).ty()));
        let want = ty.content_ok(&types)
            && (ty.allows_marks() || part.iter().all(|n| n.marks.is_empty()));
        let real = real_frag(&content);
        let range = bounds(r, s, e, content.len());
        let none = content.is_empty() && r.coin();
        let ctx = |d: String| {
            format!(
                "{}\n children {}..{} of {:?} at {} by [{}..{}] of {}\n at {} of [{}]",
                d,
                i,
                j,
                ty,
                pl.start,
                s,
                e,
                Dialect::canonical().nodes(&content),
                who,
                show(toks)
            )
        };
        w.count("fits.asked");
        // the same of whole contents, whoever the parent
        let whole: Vec<Ty> = content.iter().map(|n| n.ty()).collect();
        let t2 = if r.coin() { ty } else { *r.pick(&ALL_TY) };
        let marked = content.iter().any(|n| !n.marks.is_empty());
        let holds = t2.content_ok(&whole) && (t2.allows_marks() || !marked);
        match guard(|| node_type(t2).valid_content(&real)) {
            Ok(g) if g == holds => {}
            other => {
                w.flag(
                    "a node type judges content wrong",
                    &["C13"],
                    ctx(format!("{:?} of {:?} for the content", other, t2)),
                );
                return;
            }
        }
        // which types' content can be joined, which marks a type allows, where matching gets to
        let t3 = *r.pick(&ALL_TY);
        let mark = real_mark(&gen::mark(r, &taste));
        let set = match part.iter().find(|n| n.ty() == Ty::Text) {
            Some(n) => MarkSet::try_from(n.marks.iter().map(real_mark).collect::<Vec<_>>()).unwrap_or_default(),
            None => MarkSet::default(),
        };
        let starts = |from: usize, types: &[Ty]| types.iter().enumerate().all(|(k, t)| t2.next_ok(from + k, *t));
        let part_types: Vec<Ty> = part.iter().map(|n| n.ty()).collect();
        let res = guard(|| {
            let (a, b) = (node_type(t2), node_type(t3));
            let mut bad = vec![];
            if a.compatible_content(b) != t2.joins(t3) || b.compatible_content(a) != t2.joins(t3) {
                bad.push(format!("compatible_content({:?}, {:?})", t2, t3));
            }
            if t2.textblock() || !t2.is_leaf() {
                if a.allow_marks(&set) != (set.is_empty() || t2.allows_marks()) {
                    bad.push(format!("{:?}.allow_marks({:?})", t2, set));
                }
                if a.allows_mark_type(mark.r#type()) != t2.allows_marks() {
                    bad.push(format!("{:?}.allows_mark_type({:?})", t2, mark));
                }
            }
            match a.content_match().match_fragment(&real) {
                Some(m) if starts(0, &whole) => bad.extend(match_state(t2, whole.len(), m)),
                None if !starts(0, &whole) => {}
                m => bad.push(format!("match_fragment of {:?} is {:?}", t2, m.is_some())),
            }
            match a.content_match().match_fragment_range(&real, range) {
                Some(m) if starts(0, &part_types) => {
                    bad.extend(match_state(t2, part_types.len(), m));
                    // and on from there
                    match m.match_fragment(&real) {
                        Some(_) if starts(part_types.len(), &whole) => {}
                        None if !starts(part_types.len(), &whole) => {}
                        m => bad.push(format!("matching on in {:?} is {:?}", t2, m.is_some())),
                    }
                }
                None if !starts(0, &part_types) => {}
                m => bad.push(format!("match_fragment_range of {:?} is {:?}", t2, m.is_some())),
            }
            bad
        });
        match res {
            Ok(b) if b.is_empty() => {}
            other => {
                w.flag("a type answers wrong", &["C13"], ctx(format!("{:?}", other)));
                return;
            }
        }
        let got = guard(|| {
            if none {
                pl.node.can_replace(i, j, None, ..)
            } else {
                pl.node.can_replace(i, j, Some(&real), range)
            }
        });
        match got {
            Err(p) => {
                w.flag("panic in a fit query", &["C13"], ctx(p));
                return;
            }
            Ok(Err(e)) => {
                w.flag("a fit query fails", &["C13"], ctx(format!("{}", e)));
                return;
            }
            Ok(Ok(g)) if g != want => {
                w.flag(
                    "a fit query answers wrong",
                    &["C13"],
                    ctx(format!("says {} but it is {}", g, want)),
                );
                return;
            }
            Ok(Ok(_)) => {}
        }
        w.count(if want { "fits.yes" } else { "fits.no" });
        // the step that does it
        let at = |k: usize| {
            if k < kids.len() {
                kids[k].pos
            } else {
                pl.end
            }
        };
        let flat = gen::join_text(part.to_vec());
        let step = real_step(&MStep::Replace {
            from: at(i),
            to: at(j),
            slice: MSlice::flat(flat),
            structure: false,
        });
        let o = raw_apply(&step, doc);
        match (&o, want) {
            (Ok(Some(_)), true) | (Ok(None), false) => {}
            (o, _) => {
                w.flag(
                    "a fit query and the step disagree",
                    &["C13"],
                    ctx(format!("query {}, step {}", want, show_outcome(o))),
                );
                return;
            }
        }
        // content matches
        for k in 0..=kids.len() {
            let bad = match guard(|| pl.node.content_match_at(k)) {
                Err(p) => vec![p],
                Ok(Err(e)) => vec![format!("{}", e)],
                Ok(Ok(m)) => match_state(ty, k, m),
            };
            if !bad.is_empty() {
                w.flag(
                    "a content match is wrong",
                    &["C13"],
                    format!("{:?} at index {} of {:?} at {}", bad, k, ty, who),
                );
                return;
            }
        }
    }
    // nodes nobody would accept
    let wild = gen::wild(r, &taste, 2);
    let real = real_node(&wild);
    let ty = wild.ty();
    let types: Vec<Ty> = wild.kids.iter().map(|k| k.ty()).collect();
    let marked = wild.kids.iter().any(|k| !k.marks.is_empty());
    for _ in 0..if marked && !ty.allows_marks() { 0 } else { 3 } {
        let i = r.below(types.len() + 1);
        let j = r.range(i, types.len());
        let content: Vec<MNode> = (0..r.below(3)).map(|_| gen::any_node(r, &taste)).collect();
        let before = types[..i].iter().enumerate().all(|(i, t)| ty.next_ok(i, *t));
        let all: Vec<Ty> = types[..i].iter().copied().chain(content.iter().map(|n| n.ty())).chain(types[j..].iter().copied()).collect();
        let fits = ty.content_ok(&all) && (ty.allows_marks() || content.iter().all(|n| n.marks.is_empty()));
        let frag = real_frag(&content);
        let none = content.is_empty() && r.coin();
        let got = guard(|| real.can_replace(i, j, if none { None } else { Some(&frag) }, ..).ok());
        w.count("fits.asked of malformed nodes");
        if got != Ok(if before { Some(fits) } else { None }) {
            w.flag(
                "a fit query to a malformed node answers wrong",
                &["C13"],
                format!("{:?} for {}..{} of {} by {}", got, i, j, Dialect::canonical().node(&wild), Dialect::canonical().nodes(&content)),
            );
            return;
        }
    }
    for k in 0..=types.len() {
        let can = types[..k].iter().enumerate().all(|(i, t)| ty.next_ok(i, *t));
        let got = guard(|| real.content_match_at(k).ok());
        let bad = match (got, can) {
            (Err(p), _) => vec![p],
            (Ok(None), false) => vec![],
            (Ok(None), true) => vec!["refused".into()],
            (Ok(Some(_)), false) => vec!["succeeds".into()],
            (Ok(Some(m)), true) => match_state(ty, k, m),
        };
        if !bad.is_empty() {
            w.flag(
                "a content match is wrong",
                &["C13"],
                format!("{:?} at index {} of {}", bad, k, Dialect::canonical().node(&wild)),
            );
            return;
        }
    }
}

// ---- streams ----

trait Value: Sized + Serialize + for<'de> Deserialize<'de> {
    const NAME: &'static str;
    fn same(&self, o: &Self) -> bool;
}
impl Value for MarkdownNode {
    const NAME: &'static str = "document";
    fn same(&self, o: &Self) -> bool {
        self == o && raw_tree(self) == raw_tree(o) && self.node_size() == o.node_size()
    }
}
impl Value for Slice<MD> {
    const NAME: &'static str = "slice";
    fn same(&self, o: &Self) -> bool {
        self == o && raw_slice(self) == raw_slice(o) && self.content.size() == o.content.size()
    }
}
impl Value for Step<MD> {
    const NAME: &'static str = "step";
    fn same(&self, o: &Self) -> bool {
        self == o && raw_step(self) == raw_step(o)
    }
}

fn streams(w: &mut World, who: &str, doc: &MarkdownNode, toks: &Rc<Toks>, r: &mut Rng) {
    let taste = w.cfg.taste.clone();
    if r.pm(300) && !mark_list(w, who, &taste, r) {
        return;
    }
    match r.below(4) {
        0 => {
            let seed = r.next();
            let d = Dialect::seeded(seed).doc(toks);
            value(w, who, doc, Some(d), r)
        }
        1 | 2 => {
            let (_, m) = if r.pm(700) {
                gen::edit(r, &taste, toks)
            } else {
                (0, gen::hostile(r, &taste, toks))
            };
            let d = Dialect::seeded(r.next()).step(&m);
            let s = real_step(&m);
            if raw_step(&s) != m {
                // marks out of order were put in order
                return;
            }
            value(w, who, &s, Some(d), r)
        }
        _ => {
            let ix = gen::Ix::new(toks);
            let (a, b) = ix.cut_pair(r);
            let parents = r.pm(200);
            let m = gen::cut_slice(toks, a, b, parents);
            if let Ok(Ok(s)) = guard(|| doc.slice(a..b, parents)) {
                let d = Dialect::seeded(r.next()).slice(&m);
                let same = raw_slice(&s) == m;
                value(w, who, &s, if same { Some(d) } else { None }, r)
            }
        }
    }
}

/// Marks in any order are a set; two of one type are none.
fn mark_list(w: &mut World, who: &str, taste: &gen::Taste, r: &mut Rng) -> bool {
    let mut list: Vec<Mark> = (0..r.below(6)).map(|_| gen::mark(r, taste)).collect();
    if r.coin() {
        let mut seen = vec![];
        list.retain(|m| {
            let new = !seen.contains(&m.rank());
            seen.push(m.rank());
            new
        });
    }
    let mut want = list.clone();
    want.sort_by_key(|m| m.rank());
    let twice = want.windows(2).any(|x| x[0].rank() == x[1].rank());
    let mut d = Dialect::seeded(r.next());
    let j = format!("[{}]", list.iter().map(|m| d.mark(m)).collect::<Vec<_>>().join(","));
    let text = format!(r#"{{"type":"text","text":"x","marks":{}}}"#, j);
    let got = guard(|| {
        (
            serde_json::from_str::<MarkSet<MD>>(&j).ok().map(|s| marks_of(&s)),
            serde_json::from_str::<MarkdownNode>(&text).ok().and_then(|n| n.marks().map(marks_of)),
            MarkSet::<MD>::try_from(list.iter().map(real_mark).collect::<Vec<_>>()).ok().map(|s| marks_of(&s)),
        )
    });
    let want = if twice { None } else { Some(want) };
    w.count(if twice { "marks.listed twice" } else { "marks.listed" });
    if got != Ok((want.clone(), want.clone(), want.clone())) {
        w.flag(
            "a list of marks is read wrongly",
            &["C11"],
            format!("{} is {:?} instead of {:?} at {}", j, got, want, who),
        );
        return false;
    }
    true
}

fn value<T: Value>(w: &mut World, who: &str, v: &T, dialect: Option<String>, r: &mut Rng) {
    let name = T::NAME;
    let enc = match encode(v) {
        Ok(b) => b,
        Err(e) => {
            w.flag("a value cannot be encoded", &["C11"], format!("{} at {}: {}", name, who, e));
            return;
        }
    };
    let text = shorten(&String::from_utf8_lossy(&enc), 1500);
    let bad = |w: &mut World, kind: &str, d: String| {
        w.flag(&format!("{} ({})", kind, name), &["C11"], format!("{}\n at {}\n {}", d, who, text));
    };
    macro_rules! same {
        ($kind:expr, $r:expr, $d:expr) => {
            match $r {
                Err(p) => {
                    bad(w, concat!("panic: ", $kind), format!("{} {}", p, $d));
                    return;
                }
                Ok(None) => {
                    bad(w, concat!("refused: ", $kind), $d);
                    return;
                }
                Ok(Some(x)) => {
                    if !guard(|| x.same(v)).unwrap_or(false) {
                        bad(w, concat!("another value: ", $kind), $d);
                        return;
                    }
                }
            }
        };
    }
    // its own encoding
    same!("own encoding", guard(|| serde_json::from_slice::<T>(&enc).ok()), String::new());
    let s = String::from_utf8_lossy(&enc).into_owned();
    same!("own encoding as text", guard(|| serde_json::from_str::<T>(&s).ok()), String::new());
    same!(
        "as a JSON value",
        guard(|| serde_json::to_value(v).ok().and_then(|j| serde_json::from_value::<T>(j).ok())),
        String::new()
    );
    same!(
        "parsed JSON value",
        guard(|| serde_json::from_slice::<serde_json::Value>(&enc)
            .ok()
            .and_then(|j| T::deserialize(&j).ok())),
        String::new()
    );
    // another dialect
    let mut src = enc.clone();
    if let Some(d) = dialect {
        w.count("streams.dialects");
        let b = d.clone().into_bytes();
        same!(
            "another dialect",
            guard(|| serde_json::from_slice::<T>(&b).ok()),
            shorten(&d, 1500)
        );
        if r.coin() {
            src = b;
        }
    }
    // slow and interrupted
    for _ in 0..2 {
        let mut rd = SimReader::chunked(&src, r.next());
        let cap = 1 + r.below(48);
        let buffered = r.coin();
        let res = guard(|| {
            if buffered {
                serde_json::from_reader::<_, T>(BufReader::with_capacity(cap, &mut rd)).ok()
            } else {
                serde_json::from_reader::<_, T>(&mut rd).ok()
            }
        });
        w.count("fault.read in pieces");
        let n = rd.interrupts;
        w.count_n("fault.read interrupted", n);
        same!("read in pieces", res, String::new());
    }
    // a failing stream
    for _ in 0..4 {
        let k = r.below(src.len());
        let mut rd = SimReader::new(&src);
        if r.coin() {
            rd = SimReader::chunked(&src, r.next());
        }
        rd.fail_at = Some(k);
        rd.once = r.coin();
        w.count("fault.read error");
        match guard(|| serde_json::from_reader::<_, T>(&mut rd).is_ok()) {
            Ok(false) => {}
            Ok(true) => {
                bad(w, "a failing read yields a value", format!("error after {} bytes", k));
                return;
            }
            Err(p) => {
                bad(w, "panic: failing read", p);
                return;
            }
        }
    }
    // cut short
    let body = src.len() - src.iter().rev().take_while(|b| b.is_ascii_whitespace()).count();
    let points: Vec<usize> = if body <= 250 {
        (0..body).collect()
    } else {
        (0..80).map(|_| r.below(body)).chain([0, 1, body - 1, body - 2]).collect()
    };
    for k in points {
        w.count("fault.cut short");
        let part = &src[..k];
        let through = r.coin();
        let res = guard(|| {
            if through {
                let mut rd = SimReader::new(part);
                serde_json::from_reader::<_, T>(&mut rd).is_ok()
            } else {
                serde_json::from_slice::<T>(part).is_ok()
            }
        });
        match res {
            Ok(false) => {}
            Ok(true) => {
                w.flag(
                    &format!("part of an encoding decodes ({})", name),
                    &["C11", "C02"],
                    format!("{} of {} bytes at {}\n {}", k, src.len(), who, text),
                );
                return;
            }
            Err(p) => {
                bad(w, "panic: cut short", p);
                return;
            }
        }
    }
    // writing
    for _ in 0..4 {
        let mut out = vec![];
        let mode = r.below(4);
        let (res, hit, ints, shorts) = {
            let mut wr = SimWriter::new(&mut out);
            if r.coin() || mode == 0 {
                wr.rng = Some(Rng::new(r.next()));
            }
            match mode {
                1 => wr.limit = Some((r.below(enc.len()), WriteEnd::NoSpace)),
                2 => {
                    wr.limit = Some((r.below(enc.len()), WriteEnd::NoSpace));
                    wr.zero_writes = true;
                }
                3 => wr.limit = Some((r.below(enc.len()), WriteEnd::Eio)),
                _ => {}
            }
            wr.passing = r.coin();
            let res = guard(|| serde_json::to_writer(&mut wr, v).is_ok());
            (res, wr.hit, wr.interrupts, wr.shorts)
        };
        w.count_n("fault.write interrupted", ints);
        w.count_n("fault.short write", shorts);
        if hit != WriteEnd::Fine {
            w.count(if hit == WriteEnd::Eio { "fault.write error" } else { "fault.no space" });
        }
        match (res, hit) {
            (Ok(true), _) if out != enc => {
                bad(
                    w,
                    "a write reports success but is not complete",
                    format!("{} of {} bytes, {:?}", out.len(), enc.len(), hit),
                );
                return;
            }
            (Ok(false), WriteEnd::Fine) => {
                bad(w, "a write fails without a reason", String::new());
                return;
            }
            (Err(p), _) => {
                bad(w, "panic: writing", p);
                return;
            }
            _ => {}
        }
    }
    w.count("streams.values");
}

// ---- twins ----

fn twin(w: &mut World, who: &str, doc: &MarkdownNode, toks: &Rc<Toks>, r: &mut Rng) {
    let taste = w.cfg.taste.clone();
    let copy = match encode(doc) {
        Ok(b) => match guard(|| serde_json::from_slice::<MarkdownNode>(&b).ok()) {
            Ok(Some(d)) => d,
            _ => {
                w.flag("a document does not decode", &["C11", "C01"], show(toks));
                return;
            }
        },
        Err(_) => return,
    };
    if copy != *doc {
        w.flag(
            "a document decodes to another one",
            &["C11", "C01"],
            format!("{} [{}]", who, show(toks)),
        );
        return;
    }
    for _ in 0..6 {
        let m = if r.coin() {
            gen::edit(r, &taste, toks).1
        } else {
            gen::hostile(r, &taste, toks)
        };
        let json = Dialect::canonical().step(&m).into_bytes();
        let step = match decode_step(&json) {
            Ok(Some(s)) => s,
            _ => continue,
        };
        let a = match w.apply_checked(who, doc, toks, &step, None) {
            Some(a) => Ok(Some(a.doc)),
            None => Ok(None),
        };
        if w.stop {
            return;
        }
        let b = raw_apply(&step, &copy);
        w.count("twins.compared");
        if !outcome_eq(&a, &b) {
            w.flag(
                "a decoded copy takes a step differently",
                &["C01", "C02"],
                format!(
                    "document {}\n copy {}\n step {}\n at {} [{}]",
                    show_outcome(&a),
                    show_outcome(&b),
                    show_step(&m),
                    who,
                    show(toks)
                ),
            );
            return;
        }
        if let (Ok(Some(x)), Ok(Some(y))) = (&a, &b) {
            if encode(x) != encode(y) {
                w.flag(
                    "a decoded copy takes a step differently",
                    &["C01", "C02"],
                    format!("encodings differ\n step {}\n [{}]", show_step(&m), show(toks)),
                );
                return;
            }
        }
    }
}
