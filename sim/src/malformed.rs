//! Documents no editor would write: a damaged record or a hostile peer supplies them, they decode, and
//! the party that took them over must survive whatever it does with them next.

use crate::bridge::*;
use crate::gen::{self, Taste};
use crate::json::Dialect;
use crate::model::*;
use crate::peer;
use crate::probe;
use crate::rng::Rng;
use crate::world::{encode, outcome_eq, raw_apply, show, show_outcome, show_step, World};
use prosemirror::markdown::{from_markdown, to_markdown, MarkdownNode};
use prosemirror::model::{ContentMatch, Node};
use std::rc::Rc;

const PROP: &str = "C17";

// ---- making them ----

/// The path of every node.
fn paths(kids: &[MNode]) -> Vec<Vec<usize>> {
    fn go(kids: &[MNode], at: &mut Vec<usize>, out: &mut Vec<Vec<usize>>) {
        for (i, k) in kids.iter().enumerate() {
            at.push(i);
            out.push(at.clone());
            go(&k.kids, at, out);
            at.pop();
        }
    }
    let mut out = vec![];
    go(kids, &mut vec![], &mut out);
    out
}

fn siblings<'a>(kids: &'a mut Vec<MNode>, path: &[usize]) -> &'a mut Vec<MNode> {
    if path.len() <= 1 {
        return kids;
    }
    siblings(&mut kids[path[0]].kids, &path[1..])
}

fn any_kind(r: &mut Rng, t: &Taste) -> MNode {
    gen::wild(r, t, 0)
}

/// Break a document in a few places.
pub fn spoil(r: &mut Rng, t: &Taste, kids: &mut Vec<MNode>, n: usize) {
    for _ in 0..n {
        let all = paths(kids);
        if all.is_empty() || r.pm(60) {
            let at = r.below(kids.len() + 1);
            kids.insert(at, gen::wild(r, t, 2));
            continue;
        }
        let p = r.pick(&all).clone();
        let i = p[p.len() - 1];
        let wild = gen::wild(r, t, 2);
        let other = any_kind(r, t);
        let sib = siblings(kids, &p);
        match r.below(12) {
            // another type around the same content
            0 | 1 => {
                if other.ty().is_leaf() {
                    sib[i] = other;
                } else {
                    sib[i].kind = other.kind;
                    sib[i].text.clear();
                    sib[i].marks.clear();
                }
            }
            // content lost
            2 => sib[i].kids.clear(),
            3 => {
                sib.remove(i);
            }
            // content twice
            4 => {
                let c = sib[i].clone();
                sib.insert(i, c);
            }
            5 => {
                let at = i + r.below(2);
                sib.insert(at, wild);
            }
            // one level more
            6 => {
                if !other.ty().is_leaf() {
                    let c = sib[i].clone();
                    sib[i] = MNode::new(other.kind, vec![c]);
                }
            }
            // one level less
            7 => {
                let c = sib.remove(i);
                let rest = sib.split_off(i);
                sib.extend(c.kids);
                sib.extend(rest);
            }
            // texts in pieces, or none
            8 => {
                if sib[i].kind == Kind::Text {
                    let c: Vec<char> = sib[i].text.chars().collect();
                    let k = r.below(c.len() + 1);
                    let mut b = sib[i].clone();
                    sib[i].text = c[..k].iter().collect();
                    b.text = c[k..].iter().collect();
                    sib.insert(i + 1, b);
                }
            }
            9 => {
                let m = gen::marks(r, t);
                sib.insert(i, MNode::text("", m));
            }
            // somewhere else
            10 => {
                let c = sib.remove(i);
                let all = paths(kids);
                if all.is_empty() {
                    kids.push(c);
                } else {
                    let q = r.pick(&all).clone();
                    let s = siblings(kids, &q);
                    s.insert(q[q.len() - 1], c);
                }
            }
            // marks anywhere
            _ => {
                if sib[i].kind == Kind::Text {
                    sib[i].marks = gen::marks(r, t);
                }
            }
        }
        if size_of(kids) > 600 {
            break;
        }
    }
}

/// A malformed document that began as `base`, and steps to take with it.
pub fn make(r: &mut Rng, t: &Taste, base: &[Tok]) -> (MNode, Vec<MStep>) {
    let mut kids = if base.len() <= 400 { trees_of(base) } else { gen::blocks(r, t, 2, 3) };
    let n = *r.pick(&[0usize, 1, 1, 2, 3, 5, 9]);
    spoil(r, t, &mut kids, n);
    let root = match r.below(10) {
        0..=6 => MNode::new(Kind::Doc, kids),
        7 => {
            // a part of it on its own
            let all = paths(&kids);
            if all.is_empty() {
                MNode::new(Kind::Doc, kids)
            } else {
                let p = r.pick(&all).clone();
                siblings(&mut kids, &p)[p[p.len() - 1]].clone()
            }
        }
        8 => {
            let k = any_kind(r, t);
            if k.ty().is_leaf() {
                k
            } else {
                MNode::new(k.kind, kids)
            }
        }
        _ => gen::wild(r, t, 3),
    };
    let mut root = root;
    if r.pm(20) {
        // far too deep
        let levels = *r.pick(&[20usize, 35, 60, 120, 180]);
        for _ in 0..levels {
            let k = any_kind(r, t);
            if !k.ty().is_leaf() {
                root = MNode::new(k.kind, vec![root]);
            }
        }
    }
    let toks = toks_of(&root.kids);
    let steps = (0..r.below(6))
        .map(|_| {
            if r.pm(450) {
                gen::edit(r, t, &toks).1
            } else {
                gen::hostile(r, t, &toks)
            }
        })
        .collect();
    (root, steps)
}

// ---- judging ----

/// What a step would do if everything were allowed everywhere; None if not even that is clear.
fn spliced(root: Ty, doc: &[Tok], s: &MStep) -> Option<Toks> {
    let ok = |p: usize| p <= doc.len() && is_boundary(doc, p);
    let put = |from: usize, to: usize, toks: &[Tok], os: usize, oe: usize| {
        let opens = toks.iter().take_while(|t| matches!(t, Tok::Open(_))).count();
        let closes = toks.iter().rev().take_while(|t| **t == Tok::Close).count();
        if os > opens || oe > closes || os + oe > toks.len() {
            return None;
        }
        let mut v = doc[..from].to_vec();
        v.extend_from_slice(&toks[os..toks.len() - oe]);
        v.extend_from_slice(&doc[to..]);
        Some(v)
    };
    match s {
        MStep::Replace { from, to, slice, .. } => {
            if from > to || !ok(*from) || !ok(*to) {
                return None;
            }
            put(*from, *to, &toks_of(&slice.content), slice.os, slice.oe)
        }
        MStep::Around {
            from,
            to,
            gf,
            gt,
            slice,
            insert,
            ..
        } => {
            if !(from <= gf && gf <= gt && gt <= to && ok(*from) && ok(*to) && ok(*gf) && ok(*gt)) {
                return None;
            }
            let t = toks_of(&slice.content);
            let d = insert.checked_add(slice.os)?;
            if d > t.len() || d > t.len().checked_sub(slice.oe)? {
                return None;
            }
            let mut v = t[..d].to_vec();
            v.extend_from_slice(&doc[*gf..*gt]);
            v.extend_from_slice(&t[d..]);
            put(*from, *to, &v, slice.os, slice.oe)
        }
        MStep::AddMark { from, to, mark } => {
            if from > to || !ok(*from) || !ok(*to) {
                return None;
            }
            Some(remark(root, doc, *from, *to, |m| {
                let mut v: Vec<Mark> = m.iter().filter(|x| x.rank() != mark.rank()).cloned().collect();
                v.push(mark.clone());
                v.sort_by_key(|m| m.rank());
                v
            }))
        }
        MStep::RemoveMark { from, to, mark } => {
            if from > to || !ok(*from) || !ok(*to) {
                return None;
            }
            // taking a mark away is never forbidden
            let mut v = doc.to_vec();
            for t in &mut v[*from..*to] {
                if let Tok::U(_, m) = t {
                    if m.contains(mark) {
                        *m = Rc::new(m.iter().filter(|x| *x != mark).cloned().collect());
                    }
                }
            }
            Some(v)
        }
    }
}

fn remark<F: Fn(&[Mark]) -> Vec<Mark>>(root: Ty, doc: &[Tok], from: usize, to: usize, f: F) -> Toks {
    let mut res = doc.to_vec();
    let mut st = vec![root];
    for (i, t) in doc.iter().enumerate() {
        match t {
            Tok::Open(k) => st.push(k.ty()),
            Tok::Close => {
                st.pop();
            }
            Tok::U(u, m) if i >= from && i < to && st[st.len() - 1].allows_marks() => {
                res[i] = Tok::U(*u, Rc::new(f(m)));
            }
            _ => {}
        }
    }
    res
}

pub fn run(w: &mut World, who: &str, root: &MNode, dialect: u64, steps: &[MStep], seed: u64) {
    w.as_prop = Some(PROP);
    check(w, who, root, dialect, steps, seed);
    w.as_prop = None;
}

fn check(w: &mut World, who: &str, root: &MNode, dialect: u64, steps: &[MStep], seed: u64) {
    w.count("malformed.received");
    let mut r = Rng::new(seed);
    let json = Dialect::seeded(dialect).node(root).into_bytes();
    let damaged = r.pm(150);
    let json = if damaged { gen::corrupt(&mut r, &json) } else { json };
    let text = crate::world::cut(&String::from_utf8_lossy(&json), 1500);
    // or it came by another way than JSON
    let by_hand = r.pm(100);
    let decoded = if by_hand {
        guard(|| Some(real_node(root)))
    } else {
        guard(|| serde_json::from_slice::<MarkdownNode>(&json).ok())
    };
    let mut doc = match decoded {
        Err(p) => {
            w.flag("panic while decoding", &[PROP], format!("{}\n {}", p, text));
            return;
        }
        Ok(None) => {
            w.count("malformed.undecodable");
            if !damaged && levels(root) < 40 {
                w.flag("a node does not decode", &[PROP], text);
            }
            return;
        }
        Ok(Some(d)) => d,
    };
    let damaged = damaged && !by_hand;
    if damaged {
        if let Some(d) = peer::node_otherwise(&json, &raw_tree(&doc)) {
            w.flag("damaged bytes decode to what they do not say", &[PROP], format!("{}\n {}", d, text));
            return;
        }
    }
    if !damaged && raw_tree(&doc) != sorted(root) {
        w.flag(
            "a node decodes to another one",
            &[PROP],
            format!("{}\n became {}", &text, Dialect::canonical().node(&raw_tree(&doc))),
        );
        return;
    }
    let mut toks = match sizes(w, &doc, &text) {
        Some(t) => t,
        None => return,
    };
    if kind_of(&doc) != Kind::Doc {
        w.count("malformed.other root");
    } else if check_valid(&toks).is_err() {
        w.count("malformed.not valid");
    }
    for ms in steps {
        let step = real_step(ms);
        let ms = raw_step(&step);
        let ctx = |d: String| {
            format!(
                "{}\n {} with\n step {}\n root {:?} [{}]\n received as {}",
                d,
                who,
                show_step(&ms),
                kind_of(&doc),
                show(&toks),
                text
            )
        };
        w.count("malformed.step");
        let new = match raw_apply(&step, &doc) {
            Err(p) => {
                w.flag(&format!("panic while applying {}", ms.name()), &[PROP], ctx(p));
                return;
            }
            Ok(None) => continue,
            Ok(Some(n)) => n,
        };
        w.count("malformed.step accepted");
        let t = match sizes(w, &new, &ctx("after a step".into())) {
            Some(t) => t,
            None => return,
        };
        if kind_of(&new) != kind_of(&doc) {
            w.flag("the root becomes another node", &[PROP], ctx(format!("{:?}", kind_of(&new))));
            return;
        }
        if let Some(want) = spliced(kind_of(&doc).ty(), &toks, &ms) {
            if want != t {
                w.flag(
                    &format!("{} on a malformed document is wrong", ms.name()),
                    &[PROP],
                    ctx(format!("expected [{}]\n got      [{}]", show(&want), show(&t))),
                );
                return;
            }
        }
        // a decoded copy must take it the same way
        if max_depth(&toks) < 40 {
            let copy = encode(&doc).and_then(|b| {
                guard(|| serde_json::from_slice::<MarkdownNode>(&b).ok()).map(|d| d.map(|d| raw_apply(&step, &d)))
            });
            let a = Ok(Some(new.clone()));
            match copy {
                Ok(Some(b)) if outcome_eq(&a, &b) => {}
                Ok(Some(b)) => {
                    w.flag(
                        "a decoded copy takes a step differently",
                        &[PROP],
                        ctx(format!("copy {}", show_outcome(&b))),
                    );
                    return;
                }
                Ok(None) => {
                    w.flag("a node does not decode from its own encoding", &[PROP], ctx(String::new()));
                    return;
                }
                Err(p) => {
                    w.flag("panic while copying", &[PROP], ctx(p));
                    return;
                }
            }
        }
        doc = new;
        toks = t;
        if toks.len() > 1500 {
            break;
        }
    }
    let t = Rc::new(toks);
    for _ in 0..2 {
        match r.below(5) {
            0 | 1 if has_empty_text(&raw_tree(&doc).kids) => around_empty(w, who, &doc, &t, &text),
            0 | 1 if frag_of(&doc).is_some() => probe::positions(w, who, &doc, &t, &mut r),
            2 if frag_of(&doc).is_some() => probe::views(w, who, &doc, &t, &mut r),
            3 => fits(w, who, &doc, &text, &mut r),
            4 => exported(w, who, &doc, &text),
            _ => leaf(w, who, &doc, &text),
        }
        if w.stop {
            return;
        }
    }
}

fn levels(n: &MNode) -> usize {
    1 + n.kids.iter().map(levels).max().unwrap_or(0)
}

fn sorted(n: &MNode) -> MNode {
    let mut n = n.clone();
    n.marks.sort_by_key(|m| m.rank());
    n.kids = n.kids.iter().map(sorted).collect();
    if n.ty().is_leaf() {
        n.kids.clear();
    }
    n
}

/// The sizes a node and everything in it state, and its content as tokens.
fn sizes(w: &mut World, n: &MarkdownNode, ctx: &str) -> Option<Toks> {
    let mut faults = vec![];
    let mut t = vec![];
    let res = guard(|| {
        unguarded(|| {
            if let Some(f) = frag_of(n) {
                let s = read_frag(f, &mut t, &mut faults);
                if n.node_size() != s + 2 || n.content_size() != s {
                    faults.push(("C10", "size of the root".into()));
                }
            }
        })
    });
    if let Err(p) = res {
        w.flag("panic while reading", &[PROP], format!("{}\n {}", p, ctx));
        return None;
    }
    if let Some((_, d)) = faults.iter().find(|f| f.0 == "C10") {
        w.flag("a size is wrong", &[PROP], format!("{}\n {}", d, ctx));
        return None;
    }
    Some(t)
}

/// A root without content has one position, and nothing in it.
fn leaf(w: &mut World, who: &str, n: &MarkdownNode, text: &str) {
    if frag_of(n).is_some() {
        return;
    }
    w.count("malformed.leaf root");
    let res = guard(|| {
        let mut bad = vec![];
        match n.resolve(0) {
            Ok(p) => {
                if !std::ptr::eq(p.parent(), n) || p.node_before().is_some() || p.node_after().is_some() {
                    bad.push("position 0 is not inside the root".to_string());
                }
            }
            Err(e) => bad.push(format!("position 0: {}", e)),
        }
        for p in [1, 2, usize::MAX] {
            if n.resolve(p).is_ok() {
                bad.push(format!("position {} resolves", p));
            }
            if n.slice(0..p, false).is_ok() || n.slice(0..p, true).is_ok() {
                bad.push(format!("slice 0..{} succeeds", p));
            }
        }
        match n.slice(.., false) {
            Ok(s) if s.content.size() == 0 && s.open_start == 0 && s.open_end == 0 => {}
            other => bad.push(format!("slice of nothing: {:?}", other)),
        }
        bad
    });
    match res {
        Ok(b) if b.is_empty() => {}
        other => w.flag(
            "a leaf as the root",
            &[PROP],
            format!("{:?}\n {} with {}", other, who, text),
        ),
    }
}

/// Empty texts make it a matter of taste what is next to a position, but not whether there is one.
fn around_empty(w: &mut World, who: &str, n: &MarkdownNode, toks: &[Tok], text: &str) {
    w.count("malformed.empty texts");
    for p in 0..=toks.len() + 2 {
        let legal = p <= toks.len() && is_boundary(toks, p);
        let res = guard(|| match n.resolve(p) {
            Err(_) => None,
            Ok(rp) => {
                let mut d = 0;
                while rp.before(d + 1) != Some(p) || rp.after(d + 1) != Some(p) {
                    d += 1;
                }
                let mut bad = vec![];
                let chain = ancestors(toks, p);
                if d != chain.len() {
                    bad.push(format!("depth {}", d));
                }
                for k in 0..=d {
                    let _ = (rp.index(k), rp.index_after(k));
                    if k > 0 && k <= chain.len() && rp.start(k) != chain[k - 1] + 1 {
                        bad.push(format!("start({}) {}", k, rp.start(k)));
                    }
                    if rp.end(k) < p || rp.start(k) > p {
                        bad.push(format!("end({}) {}", k, rp.end(k)));
                    }
                }
                // whatever the index, it is the one of what is next to the position
                let kids = frag_of(rp.parent()).map_or(&[][..], |f| f.children());
                let at = rp.index(d);
                let sum: usize = kids.iter().take(at).map(|c| c.node_size()).sum();
                if at > kids.len() || rp.start(d) + sum + rp.text_offset() != p {
                    bad.push(format!("index({}) {} with text offset {}", d, at, rp.text_offset()));
                }
                if rp.node_after().is_none() != (at == kids.len()) {
                    bad.push(format!("index({}) {} with node after {:?}", d, at, rp.node_after()));
                }
                if rp.node_before().is_none() != (at == 0 && rp.text_offset() == 0) {
                    bad.push(format!("index({}) {} with node before {:?}", d, at, rp.node_before()));
                }
                let _ = rp.shared_depth(p / 2);
                Some(bad)
            }
        });
        let bad = match res {
            Err(p) => vec![p],
            Ok(None) if legal => vec!["does not resolve".to_string()],
            Ok(Some(_)) if !legal => vec!["resolves".to_string()],
            Ok(None) => vec![],
            Ok(Some(b)) => b,
        };
        if !bad.is_empty() {
            w.flag(
                "a position is wrong",
                &[PROP],
                format!("{:?} at {} of [{}]\n {} with {}", bad, p, show(toks), who, text),
            );
            return;
        }
    }
}

fn fits(w: &mut World, who: &str, doc: &MarkdownNode, text: &str, r: &mut Rng) {
    let taste = w.cfg.taste.clone();
    let mut all: Vec<&MarkdownNode> = vec![doc];
    let mut i = 0;
    while i < all.len() {
        if let Some(f) = frag_of(all[i]) {
            all.extend(f.children());
        }
        i += 1;
    }
    for _ in 0..6 {
        let n = all[r.below(all.len())];
        let ty = kind_of(n).ty();
        let kids: Vec<Ty> = raw_tree(n).kids.iter().map(|k| k.ty()).collect();
        let i = r.below(kids.len() + 1);
        let j = r.range(i, kids.len());
        let content: Vec<MNode> = (0..r.below(3)).map(|_| gen::any_node(r, &taste)).collect();
        let real = real_frag(&content);
        let starts = kids[..i].iter().enumerate().all(|(k, t)| ty.next_ok(k, *t));
        let mut types = kids[..i].to_vec();
        types.extend(content.iter().map(|n| n.ty()));
        types.extend(&kids[j..]);
        let want = ty.content_ok(&types)
            && (ty.allows_marks() || content.iter().all(|n| n.marks.is_empty()));
        let got = guard(|| {
            let m = n.content_match_at(i).ok().map(|m| m.valid_end());
            (m, n.can_replace(i, j, Some(&real), ..).ok())
        });
        let want = if starts {
            (Some(ty.end_ok(i)), Some(want))
        } else {
            (None, None)
        };
        match got {
            Ok(g) if g == want => {}
            other => {
                w.flag(
                    "a fit query is wrong",
                    &[PROP],
                    format!(
                        "{:?} instead of {:?}: children {}..{} of {} by {}\n {} with {}",
                        other,
                        want,
                        i,
                        j,
                        Dialect::canonical().node(&raw_tree(n)),
                        Dialect::canonical().nodes(&content),
                        who,
                        text
                    ),
                );
                return;
            }
        }
    }
    w.count("malformed.fits asked");
}

fn exported(w: &mut World, who: &str, doc: &MarkdownNode, text: &str) {
    crate::press::phase("exporting a malformed document");
    let res = guard(|| to_markdown(doc).ok());
    match res {
        Err(p) => {
            w.flag("panic while exporting", &[PROP], format!("{}\n {} with {}", p, who, text));
        }
        Ok(None) => w.count("malformed.not exported"),
        Ok(Some(md)) => {
            w.count("malformed.exported");
            crate::press::phase("importing what a malformed document was exported as");
            match guard(|| from_markdown(&md).is_ok()) {
                Err(p) if !crate::known::listed("C15", &p) => w.flag(
                    "panic while importing",
                    &[PROP],
                    format!("{}\n text {:?}\n {} with {}", p, md, who, text),
                ),
                _ => {}
            }
        }
    }
}
