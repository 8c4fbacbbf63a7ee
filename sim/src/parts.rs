//! Taking content apart and putting it together by every public way, compared with trees built from
//! the same parts.

use crate::bridge::*;
use crate::gen;
use crate::json::Dialect;
use crate::model::*;
use crate::probe::{self, Seen};
use crate::rng::Rng;
use crate::world::World;
use prosemirror::markdown::{helper, MarkdownMark, MarkdownNode, MD};
use prosemirror::model::{Fragment, MarkSet, Node, NodeType, Slice, Text, TextNode};
use std::collections::hash_map::DefaultHasher;
use std::collections::HashSet;
use std::convert::TryFrom;
use std::hash::BuildHasherDefault;

const PROP: &str = "C18";

fn brief(n: &[MNode]) -> String {
    crate::world::cut(&Dialect::canonical().nodes(n), 700)
}

/// Flags content that is not `want`, node by node.
fn is(w: &mut World, what: &str, got: Result<Fragment<MD>, String>, want: &[MNode], ctx: &dyn Fn() -> String) -> bool {
    let f = match got {
        Ok(f) => f,
        Err(p) => {
            w.flag(&format!("panic: {}", what), &[PROP], format!("{}\n {}", p, ctx()));
            return false;
        }
    };
    let (mut t, mut faults) = (vec![], vec![]);
    let read = guard(|| unguarded(|| read_frag(&f, &mut t, &mut faults)));
    let wrong_size = faults.iter().find(|f| f.0 == "C10").map(|f| f.1.clone());
    let d = match (read, wrong_size) {
        (Err(p), _) => format!("unreadable: {}", p),
        (_, Some(d)) => d,
        _ if raw_trees(&f) != want => format!("expected {}\n got      {}", brief(want), brief(&raw_trees(&f))),
        _ => return true,
    };
    w.flag(&format!("{} gives something else", what), &[PROP], format!("{}\n {}", d, ctx()));
    false
}

fn is_node(w: &mut World, what: &str, got: Result<MarkdownNode, String>, want: &MNode, ctx: &dyn Fn() -> String) -> bool {
    let f = got.map(|n| Fragment::from(vec![n]));
    is(w, what, f, std::slice::from_ref(want), ctx)
}

/// Another tree than `n`, but only just.
fn neighbour(r: &mut Rng, t: &gen::Taste, n: &MNode) -> MNode {
    let mut m = n.clone();
    let kid = m.kids.len();
    match &mut m.kind {
        Kind::Text => match r.below(4) {
            0 if m.text.chars().count() > 1 => {
                let mut c: Vec<char> = m.text.chars().collect();
                let i = r.below(c.len() - 1);
                c.swap(i, i + 1);
                m.text = c.into_iter().collect();
            }
            1 => m.marks = gen::marks(r, t),
            2 if m.text.is_empty() => m.text.push('x'),
            2 => {
                let c: Vec<char> = m.text.chars().collect();
                let i = r.below(c.len());
                let other = if c[i] == 'x' { 'y' } else { 'x' };
                m.text = c.iter().enumerate().map(|(k, x)| if k == i { other } else { *x }).collect();
            }
            _ => {
                for x in &mut m.marks {
                    if let Mark::Link { href, title } = x {
                        if r.coin() {
                            href.push('x');
                        } else {
                            title.push('x');
                        }
                    }
                }
            }
        },
        Kind::Heading(l) if kid == 0 || r.coin() => *l = if *l == 1 { 2 } else { 1 },
        Kind::Code(p) if kid == 0 || r.coin() => p.push('x'),
        Kind::Bullet(t) if kid == 0 || r.coin() => *t = !*t,
        Kind::Ordered(o, _) if r.coin() => *o ^= 1,
        Kind::Ordered(_, t) if kid == 0 || r.coin() => *t = !*t,
        Kind::Image { src, alt, title } => match r.below(3) {
            0 => src.push('x'),
            1 => alt.push('x'),
            _ => title.push('x'),
        },
        _ if kid > 0 => {
            let i = r.below(kid);
            match r.below(4) {
                0 => {
                    m.kids.remove(i);
                }
                1 if i + 1 < kid => m.kids.swap(i, i + 1),
                _ => m.kids[i] = neighbour(r, t, &n.kids[i]),
            }
        }
        _ => {}
    }
    m
}

pub fn run(w: &mut World, who: &str, doc: &MarkdownNode, r: &mut Rng) {
    let seen = probe::walk(doc);
    let mut all: Vec<&MarkdownNode> = vec![doc];
    all.extend(seen.iter().map(|s: &Seen| s.node));
    let taste = w.cfg.taste.clone();
    for _ in 0..6 {
        let n = all[r.below(all.len())];
        let tree = raw_tree(n);
        if size_of(&tree.kids) > 4000 && r.pm(900) {
            continue;
        }
        w.count("parts.nodes");
        let ctx = || format!("{} at {}", brief(std::slice::from_ref(&tree)), who);
        if !reach(w, n, &tree, r, &ctx) {
            return;
        }
        if !assemble(w, n, &tree, &all, r, &taste, &ctx) || !copies(w, n, &tree, &all, r, &taste, &ctx) {
            return;
        }
        if !texts(w, n, &tree, &all, r, &taste, &ctx) || !equality(w, n, &tree, &all, r, &taste, &ctx) {
            return;
        }
    }
    helpers(w, who, r, &taste);
}

/// Every way to get at the parts of a node.
fn reach(w: &mut World, n: &MarkdownNode, tree: &MNode, r: &mut Rng, ctx: &dyn Fn() -> String) -> bool {
    let len = tree.kids.len();
    let i = r.below(len + 1);
    let beyond = len + r.below(3);
    let far = *r.pick(&[usize::MAX, len + 1, 1 << 32]);
    let ty = tree.ty();
    let res = guard(|| {
        let mut bad: Vec<&str> = vec![];
        let same = |a: Option<&MarkdownNode>, k: usize| a.map(raw_tree).as_ref() == tree.kids.get(k);
        if n.child_count() != len {
            bad.push("child_count");
        }
        if !same(n.maybe_child(i), i) || (i < len && !same(n.child(i), i)) {
            bad.push("child");
        }
        if n.maybe_child(beyond).is_some() || n.maybe_child(far).is_some() {
            bad.push("maybe_child beyond the last");
        }
        if !same(n.first_child(), 0) {
            bad.push("first_child");
        }
        if n.content_size() != size_of(&tree.kids) || n.node_size() != tree.size() {
            bad.push("size");
        }
        if n.content().is_some() == ty.is_leaf() || n.is_leaf() != ty.is_leaf() {
            bad.push("is_leaf");
        }
        if n.is_text() != (ty == Ty::Text) || n.text_node().is_some() != (ty == Ty::Text) {
            bad.push("is_text");
        }
        if n.is_inline() != ty.inline() || n.is_block() == ty.inline() || n.r#type().is_inline() != ty.inline() {
            bad.push("is_inline or is_block");
        }
        if n.r#type() != probe::node_type(ty) {
            bad.push("type");
        }
        let marks = n.marks().map(marks_of).unwrap_or_default();
        if marks != tree.marks {
            bad.push("marks");
        }
        if let Some(t) = n.text_node() {
            if t.text.as_str() != tree.text || t.text.len_utf16() != tree.size() || n.text_content() != tree.text {
                bad.push("text");
            }
        }
        if let Some(f) = n.content() {
            if f.child_count() != len || f.children().len() != len || f.size() != n.content_size() {
                bad.push("fragment child_count");
            }
            if i < len && !same(Some(f.child(i)), i) || !same(f.maybe_child(i), i) {
                bad.push("fragment child");
            }
            if f.maybe_child(beyond).is_some() || f.maybe_child(far).is_some() {
                bad.push("fragment maybe_child beyond the last");
            }
            if !same(f.first_child(), 0) || !same(f.last_child(), len.wrapping_sub(1)) {
                bad.push("first or last child");
            }
        }
        bad
    });
    match res {
        Ok(b) if b.is_empty() => true,
        other => {
            w.flag("the parts of a node are not its own", &[PROP], format!("{:?}\n {}", other, ctx()));
            false
        }
    }
}

/// Some content that occurs in the document or might.
fn material(all: &[&MarkdownNode], r: &mut Rng, t: &gen::Taste) -> Vec<MNode> {
    match r.below(4) {
        0 if r.pm(100) => {
            let ty = *r.pick(&[Ty::Para, Ty::Heading, Ty::Doc, Ty::Ordered]);
            let n = gen::many(r);
            gen::join_text(gen::crowd(r, t, ty, n))
        }
        0 => {
            let n = (0..r.below(4)).map(|_| gen::any_node(r, t)).collect();
            gen::join_text(n)
        }
        1 => gen::inline(r, t, Ty::Para),
        2 => {
            // a cut
            let n = raw_tree(all[r.below(all.len())]);
            let toks = toks_of(&n.kids);
            if toks.len() > 3000 {
                return vec![];
            }
            let ix = gen::Ix::new(&toks);
            let (a, b) = ix.cut_pair(r);
            gen::cut_slice(&toks, a, b, true).content
        }
        _ => raw_tree(all[r.below(all.len())]).kids,
    }
}

/// Fragments put together, taken apart, and with another child.
fn assemble(
    w: &mut World,
    n: &MarkdownNode,
    tree: &MNode,
    all: &[&MarkdownNode],
    r: &mut Rng,
    t: &gen::Taste,
    ctx: &dyn Fn() -> String,
) -> bool {
    let own = match frag_of(n) {
        Some(f) => f,
        None => return true,
    };
    // or of something else
    let other;
    let (own, kids) = if r.pm(250) {
        let mut k = material(all, r, t);
        if r.coin() {
            let at = r.below(k.len() + 1);
            k.insert(at, MNode::text("", gen::marks(r, t)));
            if r.coin() {
                k.truncate(1);
            }
        }
        other = real_frag(&k);
        (&other, k)
    } else {
        (own, tree.kids.clone())
    };
    let tree = &MNode::new(tree.kind.clone(), kids);
    let mut want = tree.kids.clone();
    let mut log = vec![];
    // in front or behind, several times
    let more: Vec<(bool, Vec<MNode>)> = (0..r.below(4)).map(|_| (r.pm(300), material(all, r, t))).collect();
    for (front, m) in &more {
        let (mut a, b) = if *front {
            (m.clone(), want)
        } else {
            (want, m.clone())
        };
        log.push(format!("{} {}", if *front { "in front" } else { "behind" }, brief(m)));
        if let (Some(l), Some(f)) = (a.last().cloned(), b.first()) {
            if l.ty() == Ty::Text && f.ty() == Ty::Text && l.marks == f.marks {
                let k = a.len() - 1;
                a[k].text.push_str(&f.text);
                a.extend_from_slice(&b[1..]);
                want = a;
                w.count("parts.joined texts");
                continue;
            }
        }
        a.extend(b);
        want = a;
    }
    let ctx2 = || format!("{}\n {}", log.join("\n "), ctx());
    let got = guard(|| {
        let mut f = own.clone();
        for (front, m) in &more {
            let m = real_frag(m);
            f = if *front { m.append(f) } else { f.append(m) };
        }
        f
    });
    w.count("parts.appended");
    if !is(w, "appending", got, &want, &ctx2) {
        return false;
    }
    // as a list and back
    let got = guard(|| Fragment::from(Vec::from(own.clone())));
    if !is(w, "a list of its nodes", got, &tree.kids, ctx) {
        return false;
    }
    let m = material(all, r, t);
    let got = guard(|| Fragment::from(m.iter().map(real_node).collect::<Vec<_>>()));
    if !is(w, "a list of nodes", got, &m, ctx) {
        return false;
    }
    if !m.is_empty() {
        let (a, b) = (&m[0], &m[m.len() - 1]);
        let one = guard(|| Fragment::<MD>::from((real_node(a),)));
        let two = guard(|| Fragment::<MD>::from((real_node(a), real_node(b))));
        if !is(w, "a node alone", one, &[a.clone()], ctx)
            || !is(w, "a pair of nodes", two, &[a.clone(), b.clone()], ctx)
        {
            return false;
        }
    }
    let none = guard(|| if r.coin() { Fragment::new() } else { Fragment::EMPTY });
    if !is(w, "nothing", none, &[], ctx) {
        return false;
    }
    // another child
    if !tree.kids.is_empty() {
        let i = if r.coin() {
            r.below(tree.kids.len())
        } else {
            *r.pick(&[0, tree.kids.len() - 1])
        };
        let new = match r.below(4) {
            0 => tree.kids[i].clone(),
            1 => neighbour(r, t, &tree.kids[i]),
            2 => raw_tree(all[r.below(all.len())]),
            _ => gen::any_node(r, t),
        };
        let mut want = tree.kids.clone();
        want[i] = new.clone();
        let got = guard(|| own.replace_child(i, real_node(&new)).into_owned());
        w.count("parts.replaced");
        let ctx2 = || format!("child {} by {}\n {}", i, brief(std::slice::from_ref(&new)), ctx());
        if !is(w, "replacing a child", got, &want, &ctx2) {
            return false;
        }
    }
    true
}

/// The same node around other content, or with other marks.
fn copies(
    w: &mut World,
    n: &MarkdownNode,
    tree: &MNode,
    all: &[&MarkdownNode],
    r: &mut Rng,
    t: &gen::Taste,
    ctx: &dyn Fn() -> String,
) -> bool {
    w.count("parts.copied");
    let m = material(all, r, t);
    let mut want = tree.clone();
    let leaf = tree.ty().is_leaf();
    if !leaf {
        want.kids = m.clone();
    }
    let real = real_frag(&m);
    let seen = std::cell::RefCell::new(None);
    let got = guard(|| {
        n.copy(|f| {
            *seen.borrow_mut() = Some(raw_trees(f));
            real
        })
    });
    if let Some(s) = seen.borrow().as_ref() {
        if *s != tree.kids {
            w.flag("a copy maps other content", &[PROP], format!("{}\n {}", brief(s), ctx()));
            return false;
        }
    }
    if !is_node(w, "copying with other content", got, &want, ctx) {
        return false;
    }
    let got = guard(|| n.copy(|f| f.clone()));
    if !is_node(w, "copying", got, tree, ctx) || !is_node(w, "cloning", guard(|| n.clone()), tree, ctx) {
        return false;
    }
    let marks = gen::marks(r, t);
    let set = MarkSet::<MD>::try_from(marks.iter().map(real_mark).collect::<Vec<_>>());
    let set = match set {
        Ok(s) => s,
        Err(e) => {
            w.flag("marks do not make a set", &[PROP], format!("{:?}: {}", marks, e));
            return false;
        }
    };
    // marks found again among many by their hash
    let (a, b) = (gen::mark(r, t), gen::mark(r, t));
    let res = guard(|| {
        let all: HashSet<MarkdownMark, BuildHasherDefault<DefaultHasher>> = marks.iter().chain([&a]).map(real_mark).collect();
        let mut m: Vec<&Mark> = marks.iter().chain([&a]).collect();
        m.sort_by_key(|m| format!("{:?}", m));
        m.dedup();
        all.len() == m.len()
            && m.iter().all(|x| all.contains(&real_mark(x)))
            && all.contains(&real_mark(&b)) == m.contains(&&b)
    });
    if res != Ok(true) {
        w.flag(
            "marks are not found by their hash",
            &[PROP],
            format!("{:?}: {:?} and {:?}, {:?}", res, marks, a, b),
        );
        return false;
    }
    let mut want = tree.clone();
    if tree.ty() == Ty::Text {
        want.marks = marks.clone();
    }
    let got = guard(|| n.mark(set));
    is_node(w, "other marks", got, &want, ctx)
}

fn texts(
    w: &mut World,
    n: &MarkdownNode,
    tree: &MNode,
    all: &[&MarkdownNode],
    r: &mut Rng,
    t: &gen::Taste,
    ctx: &dyn Fn() -> String,
) -> bool {
    let node: &TextNode<MD> = match n {
        MarkdownNode::Text(t) => t,
        _ => return true,
    };
    w.count("parts.texts");
    let other = match r.below(3) {
        0 => real_node(&neighbour(r, t, tree)),
        1 => all[r.below(all.len())].clone(),
        _ => {
            let k = gen::marks(r, t);
            let k = if r.coin() { k } else { tree.marks.clone() };
            real_node(&MNode::text(&gen::word(r, t, 5), k))
        }
    };
    let ot = raw_tree(&other);
    let res = guard(|| {
        let mut bad = vec![];
        let same = node.same_markup(&other).map(|x| x.text.as_str().to_string());
        let want = if ot.ty() == Ty::Text && ot.marks == tree.marks {
            Some(ot.text.clone())
        } else {
            None
        };
        if same != want {
            bad.push(format!("same_markup {:?}", same));
        }
        if let MarkdownNode::Text(o) = &other {
            let j = node.text.join(&o.text);
            let s = format!("{}{}", tree.text, ot.text);
            if j.as_str() != s || j.len_utf16() != s.encode_utf16().count() || j != Text::from(s.clone()) {
                bad.push(format!("join {:?}", j));
            }
            let x = MarkdownNode::from(node.with_text(o.text.clone()));
            if raw_tree(&x) != MNode::text(&ot.text, tree.marks.clone()) || x.node_size() != ot.size() {
                bad.push(format!("with_text {:?}", x));
            }
            let p = <MarkdownNode as Node<MD>>::text(s.as_str());
            if raw_tree(&p) != MNode::text(&s, vec![]) || p.node_size() != s.encode_utf16().count() {
                bad.push(format!("text {:?}", p));
            }
        }
        bad
    });
    match res {
        Ok(b) if b.is_empty() => true,
        o => {
            w.flag(
                "texts together are wrong",
                &[PROP],
                format!("{:?}\n with {}\n {}", o, brief(std::slice::from_ref(&ot)), ctx()),
            );
            false
        }
    }
}

/// Two values are equal exactly when they are the same.
fn equality(
    w: &mut World,
    n: &MarkdownNode,
    tree: &MNode,
    all: &[&MarkdownNode],
    r: &mut Rng,
    t: &gen::Taste,
    ctx: &dyn Fn() -> String,
) -> bool {
    for _ in 0..3 {
        let ot = match r.below(4) {
            0 => tree.clone(),
            1 | 2 => neighbour(r, t, tree),
            _ => raw_tree(all[r.below(all.len())]),
        };
        w.count(if ot == *tree { "parts.compared equal" } else { "parts.compared unequal" });
        let (os, oe) = (r.below(3), r.below(3));
        let res = guard(|| {
            let o = real_node(&ot);
            let mut got = vec![*n == o, o == *n];
            if tree.size() < 200 {
                let (a, b) = (format!("{:?}", n), format!("{:?}", o));
                if ot == *tree && a != b {
                    got.push(false);
                }
            }
            if let (Some(a), Some(b)) = (frag_of(n), frag_of(&o)) {
                let same_kids = tree.kids == ot.kids;
                if (*a == *b) != same_kids {
                    got.push(!(tree == &ot));
                }
                let s = Slice::new(a.clone(), os, oe);
                let x = Slice::new(b.clone(), oe, os);
                if (s == x) != (same_kids && os == oe) {
                    got.push(!(tree == &ot));
                }
            }
            if let (MarkdownNode::Text(a), MarkdownNode::Text(b)) = (n, &o) {
                if (a.text == b.text) != (tree.text == ot.text) || (a.marks == b.marks) != (tree.marks == ot.marks) {
                    got.push(!(tree == &ot));
                }
            }
            got
        });
        match res {
            Ok(g) if g.iter().all(|x| *x == (*tree == ot)) => {}
            o => {
                w.flag(
                    "equality is wrong",
                    &[PROP],
                    format!("{:?}\n against {}\n {}", o, brief(std::slice::from_ref(&ot)), ctx()),
                );
                return false;
            }
        }
    }
    true
}

/// Nodes made by the helper functions.
fn helpers(w: &mut World, who: &str, r: &mut Rng, t: &gen::Taste) {
    let inl = gen::inline(r, t, Ty::Para);
    let blk = gen::blocks(r, t, 1, 3);
    let items: Vec<MNode> = (0..1 + r.below(3)).map(|_| gen::item(r, t, 1)).collect();
    let s = gen::word(r, t, 6);
    let level = 1 + r.below(6) as u8;
    let f = |k: &[MNode]| real_frag(k);
    let text = |m: Vec<Mark>| MNode::text(&s, m);
    let made: Vec<(&str, Result<MarkdownNode, String>, MNode)> = vec![
        ("doc", guard(|| helper::doc(f(&blk))), MNode::new(Kind::Doc, blk.clone())),
        ("h", guard(|| helper::h(level, f(&inl))), MNode::new(Kind::Heading(level), inl.clone())),
        ("h1", guard(|| helper::h1(s.as_str())), MNode::new(Kind::Heading(1), vec![text(vec![])])),
        ("h2", guard(|| helper::h2(f(&inl))), MNode::new(Kind::Heading(2), inl.clone())),
        ("em", guard(|| helper::em(&s)), text(vec![Mark::Em])),
        ("strong", guard(|| helper::strong(&s)), text(vec![Mark::Strong])),
        ("p", guard(|| helper::p(s.as_str())), MNode::new(Kind::Para, vec![text(vec![])])),
        (
            "p of a pair",
            guard(|| helper::p((s.as_str(), helper::em(&s)))),
            MNode::new(Kind::Para, vec![text(vec![]), text(vec![Mark::Em])]),
        ),
        ("li", guard(|| helper::li(f(&blk))), MNode::new(Kind::Item, blk.clone())),
        ("ul", guard(|| helper::ul(f(&items))), MNode::new(Kind::Bullet(false), items.clone())),
        (
            "code_block",
            guard(|| helper::code_block(&s, s.as_str())),
            MNode::new(Kind::Code(s.clone()), vec![text(vec![])]),
        ),
        (
            "blockquote",
            guard(|| helper::blockquote(real_node(&blk[0]))),
            MNode::new(Kind::Quote, vec![blk[0].clone()]),
        ),
        ("node", guard(|| helper::node(s.as_str())), text(vec![])),
    ];
    for (name, got, want) in made {
        if !is_node(w, &format!("helper {}", name), got, &want, &|| who.to_string()) {
            return;
        }
    }
}

/// A range that ends with, or begins behind, the largest of all numbers is no range of any node.
fn to_the_end_of_numbers(w: &mut World, who: &str, n: &MarkdownNode, slice: &Slice<MD>, r: &mut Rng) -> bool {
    use std::ops::Bound::*;
    let start = *r.pick(&[Unbounded, Included(0), Included(n.content_size()), Excluded(0)]);
    let range = match r.below(4) {
        0 => (Excluded(usize::MAX), Unbounded),
        1 => (start, Excluded(usize::MAX)),
        _ => (start, Included(usize::MAX)),
    };
    w.count("parts.ranges without end");
    let parents = r.coin();
    let ctx = |d: String| format!("{}\n {:?} of {} of {}", d, range, n.content_size(), who);
    match guard(|| (n.replace(range, slice).is_ok(), n.slice(range, parents).is_ok())) {
        Err(p) => {
            w.flag("panic while replacing", &["C05", "C03"], ctx(p));
            false
        }
        Ok((false, false)) => true,
        Ok((true, _)) => {
            w.flag("replacing a range is wrong", &["C05"], ctx("a range beyond the end is replaced".into()));
            false
        }
        Ok(_) => {
            w.flag("a range beyond the end is read", &["C12"], ctx(String::new()));
            false
        }
    }
}

/// Replacing in a node directly does what a step would do to the document around it.
pub fn replaced(w: &mut World, who: &str, doc: &MarkdownNode, toks: &[Tok], r: &mut Rng) {
    let taste = w.cfg.taste.clone();
    for _ in 0..4 {
        let s = match r.below(5) {
            0 => gen::hostile(r, &taste, toks),
            _ => gen::edit(r, &taste, toks).1,
        };
        let (from, to, slice) = match s {
            MStep::Replace { from, to, slice, .. } => (from, to, slice),
            _ => continue,
        };
        if slice.size() > 4000 {
            continue;
        }
        // the nodes both positions are in
        let inside = |p: usize| p <= toks.len() && is_boundary(toks, p);
        let mut chain = vec![];
        if inside(from) && inside(to) {
            let (a, b) = (ancestors(toks, from), ancestors(toks, to));
            chain = a.iter().zip(b.iter()).take_while(|(x, y)| x == y).map(|(x, _)| *x).collect();
            chain.truncate(r.below(chain.len() + 1));
            let depth = |p: usize| ancestors(toks, p).len() - chain.len();
            if !chain.is_empty() && (slice.os > depth(from) || slice.oe > depth(to)) {
                chain.clear();
            }
        }
        let mut n = doc;
        for open in &chain {
            let seen = probe::walk(doc);
            n = match seen.iter().find(|s| s.at() == *open && !s.node.is_leaf()) {
                Some(s) => s.node,
                None => return,
            };
        }
        let start = chain.last().map_or(0, |o| o + 1);
        let step = MStep::Replace {
            from,
            to,
            slice: slice.clone(),
            structure: false,
        };
        let real = real_slice(&slice);
        let size = size_of(&raw_tree(n).kids);
        let range = if inside(from) && inside(to) {
            probe::bounds(r, from - start, to - start, size)
        } else {
            probe::bounds(r, from, to, size)
        };
        if r.pm(60) && !to_the_end_of_numbers(w, who, n, &real, r) {
            return;
        }
        w.count("parts.replaced ranges");
        let got = guard(|| n.replace(range, &real));
        let ctx = |d: String| {
            format!(
                "{}\n {:?} at {:?} of {}\n {}\n doc [{}]",
                d,
                range,
                chain,
                who,
                crate::world::show_step(&step),
                crate::world::show(toks)
            )
        };
        let got = match got {
            Ok(g) => g,
            Err(p) => {
                w.flag("panic while replacing", &["C05", "C03"], ctx(p));
                return;
            }
        };
        if let Err(e) = &got {
            w.count("refusals");
            if !has_empty_text(&slice.content) {
                let own = &toks[start..start + size];
                let place = crate::reason::Place {
                    root: kind_of(n).ty(),
                    toks: own,
                    order: vec![from - start, to - start],
                };
                let real = toks_of(&slice.content);
                let said = crate::reason::replace(&place, from - start, to - start, &real, slice.os, slice.oe, e);
                if let Err(d) = said {
                    w.flag(
                        "a replacement is refused for a reason that is none",
                        &["C20"],
                        ctx(format!("{} ({:?})\n {}", e, e, d)),
                    );
                }
            }
        }
        let got = got.ok();
        if let (true, Some(n)) = (chain.is_empty(), &got) {
            // the whole thing must be the same
            let by_step = crate::world::raw_apply(&real_step(&step), doc);
            if by_step != Ok(Some(n.clone())) {
                w.flag("replacing and a replace step differ", &["C05"], ctx(crate::world::show_outcome(&by_step)));
                return;
            }
        }
        let o = apply(toks, &step);
        let after = got.as_ref().map(|g| {
            let mut v = toks[..start].to_vec();
            v.extend(toks_of(&raw_tree(g).kids));
            v.extend_from_slice(&toks[start + size..]);
            (kind_of(g) == kind_of(n), v)
        });
        let fine = match (&o.verdict, &o.result, &after) {
            (Verdict::Either, Some(want), Some((k, v))) => *k && v == want,
            (Verdict::Either, ..) => true,
            (Verdict::Accept, Some(want), Some((k, v))) => *k && v == want,
            (Verdict::Refuse(_), _, None) => true,
            _ => false,
        };
        if !fine {
            let d = format!("{:?}, got {:?}", o.verdict, after.map(|a| crate::world::show(&a.1)));
            w.flag("replacing a range is wrong", &["C05"], ctx(d));
            return;
        }
    }
}
