//! What the simulated users and adversaries do: documents, edits made for the document a client
//! sees, and hostile steps.

use crate::model::*;
use crate::rng::Rng;

#[derive(Clone, Debug, serde::Serialize, serde::Deserialize)]
pub struct Taste {
    /// 0 plain ASCII, 1 mixed, 2 mostly astral
    pub alphabet: u8,
    /// weights of the edit intents
    pub intents: Vec<usize>,
    /// chance (pm) that text gets marks
    pub marked: usize,
    pub max_len: usize,
    pub max_depth: usize,
}

pub const INTENTS: [&str; 23] = [
    "insert text",
    "delete",
    "replace text",
    "split",
    "join",
    "insert block",
    "delete node",
    "wrap",
    "lift",
    "set block type",
    "sink",
    "add mark",
    "remove mark",
    "paste",
    "random replace",
    "random around",
    "random structural",
    "insert leaf",
    "retype container",
    "partial lift",
    "deep paste",
    "structural on boundary",
    "spliced around",
];

const PLAIN: [&str; 10] = ["a", "b", "c", "x", "y", " ", "z", "q", "1", "w"];
const MIXED: [&str; 22] = [
    "a", "b", "c", " ", "é", "ß", "漢", "😀", "𝒳", "e\u{301}", "\"", "\\", "\n", "<", "&", "\u{2028}", "🇩🇪",
    "\u{200d}", "*", "_", "/", "\u{1}",
];
const ASTRAL: [&str; 8] = ["😀", "𝒳", "🎉", "a", "𐍈", "🇩", "b", "\u{10FFFF}"];

const PROSE: [&str; 24] = [
    "a", "b", "word", "C++", " ", " ", " ", ".", ",", "-", ":", "(", ")", "'", "1", "é", "?", "/", "=", "#", "%", "{", "!",
    "b_c",
];

/// The characters that are most often forgotten: controls, the edges of every encoding's ranges,
/// noncharacters, marks of byte order and direction, odd spaces and line ends.
const ODD: [&str; 36] = [
    "\0", "\u{1}", "\u{8}", "\t", "\r", "\r\n", "\u{b}", "\u{c}", "\u{1f}", "\u{7f}", "\u{80}", "\u{85}", "\u{9f}", "\u{a0}",
    "\u{ad}", "\u{7ff}", "\u{800}", "\u{2000}", "\u{200b}", "\u{200f}", "\u{2029}", "\u{202e}", "\u{3000}", "\u{d7ff}", "\u{e000}",
    "\u{feff}", "\u{fdd0}", "\u{fffd}", "\u{fffe}", "\u{ffff}", "\u{10000}", "\u{1fffe}", "\u{e0001}", "\u{10ffff}", "İ", "ǆ",
];

pub fn word(r: &mut Rng, t: &Taste, max: usize) -> String {
    let n = 1 + r.below(max.max(1));
    let mut s = String::new();
    for _ in 0..n {
        s.push_str(match t.alphabet {
            0 => r.pick::<&str>(&PLAIN),
            1 => r.pick::<&str>(&MIXED),
            3 => r.pick::<&str>(&PROSE),
            4 if r.pm(600) => r.pick::<&str>(&ODD),
            4 => r.pick::<&str>(&PLAIN),
            _ => r.pick::<&str>(&ASTRAL),
        });
    }
    s
}

fn attr(r: &mut Rng, t: &Taste) -> String {
    match r.below(4) {
        0 => String::new(),
        1 if r.pm(30) => word(r, t, 400),
        1 => word(r, t, 3),
        2 => "u".into(),
        _ => "v".into(),
    }
}

pub fn mark(r: &mut Rng, t: &Taste) -> Mark {
    match r.below(5) {
        0 => Mark::Strong,
        1 => Mark::Em,
        2 => Mark::Code,
        _ => Mark::Link {
            href: attr(r, t),
            title: attr(r, t),
        },
    }
}

pub fn marks(r: &mut Rng, t: &Taste) -> Vec<Mark> {
    let mut v: Vec<Mark> = vec![];
    if r.pm(t.marked) {
        for _ in 0..1 + r.below(5) {
            let m = mark(r, t);
            if !v.iter().any(|x| x.rank() == m.rank()) {
                v.push(m);
            }
        }
    }
    v.sort_by_key(|m| m.rank());
    v
}

fn image(r: &mut Rng, t: &Taste) -> MNode {
    MNode::new(
        Kind::Image {
            src: attr(r, t),
            alt: attr(r, t),
            title: attr(r, t),
        },
        vec![],
    )
}

pub fn join_text(v: Vec<MNode>) -> Vec<MNode> {
    let mut out: Vec<MNode> = vec![];
    for n in v {
        if let Some(l) = out.last_mut() {
            if l.ty() == Ty::Text && n.ty() == Ty::Text && l.marks == n.marks {
                l.text.push_str(&n.text);
                continue;
            }
        }
        out.push(n);
    }
    out
}

pub fn inline(r: &mut Rng, t: &Taste, parent: Ty) -> Vec<MNode> {
    let n = match r.below(6) {
        0 => 0,
        1..=3 => 1,
        4 => 2,
        _ => 3,
    };
    let mut v = vec![];
    for _ in 0..n {
        match (r.below(6), parent) {
            (0, Ty::Para) => v.push(MNode::new(Kind::Break, vec![])),
            (1, Ty::Para) | (1, Ty::Heading) => v.push(image(r, t)),
            _ => {
                let m = if parent.allows_marks() {
                    marks(r, t)
                } else {
                    vec![]
                };
                v.push(MNode::text(&word(r, t, 7), m))
            }
        }
    }
    join_text(v)
}

fn textblock_kind(r: &mut Rng, t: &Taste) -> Kind {
    match r.below(6) {
        0 | 1 | 2 => Kind::Para,
        3 | 4 => Kind::Heading(*r.pick(&[1u8, 2, 3, 6, 0, 255])),
        _ => Kind::Code(attr(r, t)),
    }
}

fn list_kind(r: &mut Rng) -> Kind {
    if r.coin() {
        Kind::Bullet(r.coin())
    } else {
        Kind::Ordered(*r.pick(&[1usize, 0, 2, 7, 10, 1000, 999999999, 4294967296, 9007199254740991, usize::MAX]), r.coin())
    }
}

pub fn block(r: &mut Rng, t: &Taste, depth: usize) -> MNode {
    let c = if depth == 0 { r.below(6) } else { r.below(10) };
    match c {
        0..=4 => {
            let k = textblock_kind(r, t);
            let c = inline(r, t, k.ty());
            MNode::new(k, c)
        }
        5 => MNode::new(Kind::Rule, vec![]),
        6 | 7 => {
            let c = blocks(r, t, depth - 1, 3);
            MNode::new(Kind::Quote, c)
        }
        _ => {
            let k = list_kind(r);
            let n = 1 + r.below(3);
            let items = (0..n).map(|_| item(r, t, depth - 1)).collect();
            MNode::new(k, items)
        }
    }
}

pub fn item(r: &mut Rng, t: &Taste, depth: usize) -> MNode {
    let c = inline(r, t, Ty::Para);
    let mut kids = vec![MNode::new(Kind::Para, c)];
    if r.pm(350) {
        kids.extend(blocks(r, t, depth.saturating_sub(1), 2));
    }
    MNode::new(Kind::Item, kids)
}

/// A block of about n tokens: a long text, many children or (for small n) deep nesting.
pub fn vast(r: &mut Rng, t: &Taste, n: usize) -> MNode {
    let long = |r: &mut Rng, n: usize| {
        let w = word(r, t, 40);
        let mut s = w.repeat(n / w.encode_utf16().count());
        s.push_str(&word(r, t, 5));
        s
    };
    let big = n > 65_000;
    match if big { r.below(4) } else { r.below(6) } {
        0 | 1 => {
            // one text or a few
            let k = 1 + r.below(3);
            let texts = (0..k)
                .map(|_| {
                    let s = long(r, n / k);
                    let m = marks(r, t);
                    MNode::text(&s, m)
                })
                .collect();
            MNode::new(Kind::Para, join_text(texts))
        }
        2 => {
            // many inline nodes
            let kids = (0..if big { n } else { n / 2 })
                .map(|i| match i % 3 {
                    0 => MNode::new(Kind::Break, vec![]),
                    1 => MNode::text("ab", if i % 2 == 0 { vec![Mark::Strong] } else { vec![] }),
                    _ => MNode::text("c", vec![Mark::Em]),
                })
                .collect();
            MNode::new(Kind::Para, kids)
        }
        3 => {
            // many blocks
            let count = if big { n } else { n / 4 };
            let some = if big { 5000 } else { 1 };
            let kids = (0..count).map(|i| if i % some > 0 { MNode::new(Kind::Para, vec![]) } else { MNode::new(Kind::Para, inline(r, t, Ty::Para).into_iter().take(1 + i % 2).collect()) }).collect();
            MNode::new(Kind::Quote, kids)
        }
        4 => {
            // many items
            let kids = (0..n / 6)
                .map(|_| MNode::new(Kind::Item, vec![MNode::new(Kind::Para, inline(r, t, Ty::Para))]))
                .collect();
            MNode::new(list_kind(r), kids)
        }
        _ => {
            let mut b = block(r, t, 0);
            let (twice, plain) = (r.pm(400), r.coin());
            for _ in 0..r.range(8, 56).min(n) {
                b = match if plain { 0 } else { r.below(3) } {
                    0 => MNode::new(Kind::Quote, vec![b]),
                    1 => MNode::new(Kind::Quote, vec![MNode::new(Kind::Rule, vec![]), b]),
                    _ if matches!(b.ty(), Ty::Para) => MNode::new(Kind::Bullet(false), vec![MNode::new(Kind::Item, vec![b])]),
                    _ => MNode::new(Kind::Quote, vec![b, MNode::new(Kind::Para, vec![])]),
                };
            }
            // or two of them side by side
            if twice {
                b = MNode::new(Kind::Quote, vec![b.clone(), b]);
            }
            b
        }
    }
}

/// Many children that a node of this type can have, marks (if any) mostly among the last ones.
pub fn crowd(r: &mut Rng, t: &Taste, parent: Ty, n: usize) -> Vec<MNode> {
    let first = r.below(n + 1).max(r.below(n + 1));
    match parent {
        Ty::Para | Ty::Heading => (0..n)
            .map(|i| match i % 2 {
                0 if parent == Ty::Para && r.coin() => MNode::new(Kind::Break, vec![]),
                0 => image(r, t),
                _ => {
                    let m = if i >= first { marks(r, t) } else { vec![] };
                    MNode::text(&word(r, t, 3), m)
                }
            })
            .collect(),
        Ty::Code => vec![MNode::text(&word(r, t, 3).repeat(n), vec![])],
        Ty::Bullet | Ty::Ordered => (0..n)
            .map(|_| MNode::new(Kind::Item, vec![MNode::new(Kind::Para, vec![])]))
            .collect(),
        _ => (0..n)
            .map(|_| match r.below(4) {
                0 => MNode::new(Kind::Rule, vec![]),
                1 => MNode::new(Kind::Para, inline(r, t, Ty::Para)),
                _ => MNode::new(Kind::Para, vec![]),
            })
            .collect(),
    }
}

/// How many: mostly a dozen or two, sometimes some hundreds.
pub fn many(r: &mut Rng) -> usize {
    match r.below(8) {
        0 => r.range(100, 400),
        1 | 2 => r.range(33, 100),
        _ => r.range(8, 33),
    }
}

pub fn blocks(r: &mut Rng, t: &Taste, depth: usize, max: usize) -> Vec<MNode> {
    (0..1 + r.below(max)).map(|_| block(r, t, depth)).collect()
}

/// Any node at all (for fit queries and hostile content).
pub fn any_node(r: &mut Rng, t: &Taste) -> MNode {
    match r.below(12) {
        0 | 1 => {
            let m = marks(r, t);
            MNode::text(&word(r, t, 4), m)
        }
        2 => MNode::new(Kind::Break, vec![]),
        3 => image(r, t),
        4 => item(r, t, 1),
        5 => MNode::new(Kind::Rule, vec![]),
        6 => MNode::new(Kind::Para, inline(r, t, Ty::Para)),
        7 => MNode::new(Kind::Doc, blocks(r, t, 0, 1)),
        _ => block(r, t, 2),
    }
}

/// Content that may break any rule.
pub fn wild(r: &mut Rng, t: &Taste, depth: usize) -> MNode {
    let kind = match r.below(12) {
        0 => Kind::Doc,
        1 => Kind::Heading(1),
        2 => Kind::Code(String::new()),
        3 => Kind::Quote,
        4 => Kind::Para,
        5 => list_kind(r),
        6 => Kind::Item,
        7 => Kind::Rule,
        8 => Kind::Break,
        9 => return image(r, t),
        _ => {
            let s = if r.pm(300) {
                String::new()
            } else {
                word(r, t, 3)
            };
            let m = marks(r, t);
            return MNode::text(&s, m);
        }
    };
    if kind.ty().is_leaf() || depth == 0 {
        return MNode::new(kind, vec![]);
    }
    let n = r.below(4);
    let kids = (0..n).map(|_| wild(r, t, depth - 1)).collect();
    MNode::new(kind, kids)
}

/// An index over a document's tokens.
pub struct Ix<'a> {
    pub t: &'a [Tok],
    pub close: Vec<usize>,
    /// innermost open token around each position (usize::MAX: root)
    pub parent: Vec<usize>,
    /// nodes with content: (open index, depth of the node, 1 = child of the root)
    pub nodes: Vec<(usize, usize)>,
    pub cuts: Vec<usize>,
}

pub const ROOT: usize = usize::MAX;

impl<'a> Ix<'a> {
    pub fn new(t: &'a [Tok]) -> Ix<'a> {
        let mut close = vec![0; t.len()];
        let mut parent = Vec::with_capacity(t.len() + 1);
        let mut nodes = vec![];
        let mut st: Vec<usize> = vec![];
        let mut cuts = vec![];
        for i in 0..=t.len() {
            if i > 0 {
                match &t[i - 1] {
                    Tok::Open(_) => {
                        st.push(i - 1);
                        nodes.push((i - 1, st.len()));
                    }
                    Tok::Close => {
                        let o = st.pop().unwrap();
                        close[o] = i - 1;
                    }
                    _ => {}
                }
            }
            parent.push(st.last().copied().unwrap_or(ROOT));
            if is_boundary(t, i) {
                cuts.push(i);
            }
        }
        Ix {
            t,
            close,
            parent,
            nodes,
            cuts,
        }
    }
    pub fn kind(&self, i: usize) -> Kind {
        if i == ROOT {
            return Kind::Doc;
        }
        match &self.t[i] {
            Tok::Open(k) | Tok::Leaf(k) => (**k).clone(),
            _ => Kind::Text,
        }
    }
    pub fn ty(&self, i: usize) -> Ty {
        if i == ROOT {
            return Ty::Doc;
        }
        match &self.t[i] {
            Tok::Open(k) | Tok::Leaf(k) => k.ty(),
            _ => Ty::Text,
        }
    }
    pub fn range(&self, i: usize) -> (usize, usize) {
        if i == ROOT {
            (0, self.t.len())
        } else {
            (i + 1, self.close[i])
        }
    }
    pub fn textblocks(&self) -> Vec<usize> {
        self.nodes
            .iter()
            .map(|n| n.0)
            .filter(|i| self.ty(*i).textblock())
            .collect()
    }
    /// [start, end) of each child
    pub fn kids(&self, i: usize) -> Vec<(usize, usize)> {
        let (s, e) = self.range(i);
        let mut v = vec![];
        let mut p = s;
        while p < e {
            let q = match &self.t[p] {
                Tok::Open(_) => self.close[p] + 1,
                Tok::U(_, m) => {
                    let mut q = p + 1;
                    while q < e && matches!(&self.t[q], Tok::U(_, m2) if m2 == m) {
                        q += 1;
                    }
                    q
                }
                _ => p + 1,
            };
            v.push((p, q));
            p = q;
        }
        v
    }
    pub fn chain(&self, pos: usize) -> Vec<usize> {
        ancestors(self.t, pos)
    }
    pub fn cut_in(&self, r: &mut Rng, a: usize, b: usize) -> usize {
        for _ in 0..8 {
            let p = r.range(a, b);
            if is_boundary(self.t, p) {
                return p;
            }
        }
        a
    }
    pub fn any_cut(&self, r: &mut Rng) -> usize {
        *r.pick(&self.cuts)
    }
    /// two cuts, near each other more often than not
    pub fn cut_pair(&self, r: &mut Rng) -> (usize, usize) {
        let a = r.below(self.cuts.len());
        let b = if r.pm(650) {
            let d = r.below(8);
            (a + d).min(self.cuts.len() - 1)
        } else {
            r.below(self.cuts.len())
        };
        let (a, b) = (self.cuts[a.min(b)], self.cuts[a.max(b)]);
        (a, b)
    }
}

/// The slice between two positions, as the model defines it.
pub fn cut_slice(t: &[Tok], a: usize, b: usize, parents: bool) -> MSlice {
    if a >= b {
        return MSlice::default();
    }
    let ca = ancestors(t, a);
    let cb = ancestors(t, b);
    let shared = if parents {
        0
    } else {
        ca.iter().zip(&cb).take_while(|(x, y)| x == y).count()
    };
    let mut v: Toks = vec![];
    for i in &ca[shared..] {
        v.push(t[*i].clone());
    }
    v.extend_from_slice(&t[a..b]);
    for _ in &cb[shared..] {
        v.push(Tok::Close);
    }
    MSlice {
        content: trees_of(&v),
        os: ca.len() - shared,
        oe: cb.len() - shared,
    }
}

fn chain_of(kinds: &[Kind], inner: Vec<MNode>) -> Vec<MNode> {
    let mut v = inner;
    for k in kinds.iter().rev() {
        v = vec![MNode::new(k.clone(), v)];
    }
    v
}

fn rep(from: usize, to: usize, slice: MSlice, structure: bool) -> MStep {
    MStep::Replace {
        from,
        to,
        slice,
        structure,
    }
}

fn del(from: usize, to: usize, structure: bool) -> MStep {
    rep(from, to, MSlice::default(), structure)
}

/// One attempt at an edit of the given intent; it may or may not fit.
pub fn intent(r: &mut Rng, t: &Taste, ix: &Ix, which: usize) -> Option<MStep> {
    let tb = ix.textblocks();
    let pick_tb = |r: &mut Rng| -> Option<usize> {
        if tb.is_empty() {
            None
        } else {
            Some(*r.pick(&tb))
        }
    };
    Some(match INTENTS[which] {
        "insert text" => {
            let b = pick_tb(r)?;
            let (s, e) = ix.range(b);
            let p = ix.cut_in(r, s, e);
            let m = if ix.ty(b).allows_marks() {
                match (&ix.t[p - 1], r.coin()) {
                    (Tok::U(_, m), true) => (**m).clone(),
                    _ => marks(r, t),
                }
            } else {
                vec![]
            };
            rep(p, p, MSlice::flat(vec![MNode::text(&word(r, t, 4), m)]), false)
        }
        "delete" => {
            let (a, b) = if r.coin() {
                let b = pick_tb(r)?;
                let (s, e) = ix.range(b);
                let x = ix.cut_in(r, s, e);
                let y = ix.cut_in(r, s, e);
                (x.min(y), x.max(y))
            } else {
                ix.cut_pair(r)
            };
            del(a, b, false)
        }
        "replace text" => {
            let b = pick_tb(r)?;
            let (s, e) = ix.range(b);
            let x = ix.cut_in(r, s, e);
            let y = ix.cut_in(r, s, e);
            let m = if ix.ty(b).allows_marks() {
                marks(r, t)
            } else {
                vec![]
            };
            rep(
                x.min(y),
                x.max(y),
                MSlice::flat(vec![MNode::text(&word(r, t, 5), m)]),
                false,
            )
        }
        "split" => {
            let b = pick_tb(r)?;
            let (s, e) = ix.range(b);
            let p = ix.cut_in(r, s, e);
            let chain = ix.chain(p);
            let d = 1 + r.below(chain.len().min(3));
            let kinds: Vec<Kind> = chain[chain.len() - d..].iter().map(|i| ix.kind(*i)).collect();
            let mut right = kinds.clone();
            if r.pm(300) {
                *right.last_mut().unwrap() = textblock_kind(r, t);
            }
            let mut c = chain_of(&kinds, vec![]);
            c.extend(chain_of(&right, vec![]));
            rep(
                p,
                p,
                MSlice {
                    content: c,
                    os: d,
                    oe: d,
                },
                r.coin(),
            )
        }
        "join" => {
            let c: Vec<usize> = (1..ix.t.len())
                .filter(|p| {
                    matches!(ix.t[*p - 1], Tok::Close) && matches!(ix.t[*p], Tok::Open(_))
                })
                .collect();
            if c.is_empty() {
                return None;
            }
            let p = *r.pick(&c);
            let mut d = 1;
            let far = r.pm(200);
            while (d < 3 || far)
                && p > d
                && p + d < ix.t.len()
                && matches!(ix.t[p - 1 - d], Tok::Close)
                && matches!(ix.t[p + d], Tok::Open(_))
                && (far || r.coin())
            {
                d += 1;
            }
            del(p - d, p + d, r.pm(700))
        }
        "insert block" => {
            let c: Vec<usize> = ix
                .cuts
                .iter()
                .copied()
                .filter(|p| !ix.ty(ix.parent[*p]).textblock())
                .collect();
            let p = *r.pick(&c);
            let content = match ix.ty(ix.parent[p]) {
                p if r.pm(15) => {
                    let n = many(r);
                    crowd(r, t, p, n)
                }
                Ty::Bullet | Ty::Ordered => vec![item(r, t, 1)],
                _ => blocks(r, t, 2, 2),
            };
            rep(p, p, MSlice::flat(content), r.pm(200))
        }
        "delete node" => {
            let i = if r.pm(800) && !ix.nodes.is_empty() {
                r.pick(&ix.nodes).0
            } else {
                let l: Vec<usize> = (0..ix.t.len())
                    .filter(|i| matches!(ix.t[*i], Tok::Leaf(_)))
                    .collect();
                if l.is_empty() {
                    return None;
                }
                *r.pick(&l)
            };
            let e = match ix.t[i] {
                Tok::Open(_) => ix.close[i] + 1,
                _ => i + 1,
            };
            del(i, e, false)
        }
        "wrap" => {
            let c: Vec<usize> = std::iter::once(ROOT)
                .chain(ix.nodes.iter().map(|n| n.0))
                .filter(|i| !ix.ty(*i).textblock())
                .collect();
            let kids = ix.kids(*r.pick(&c));
            if kids.is_empty() {
                return None;
            }
            let a = r.below(kids.len());
            let b = (a + r.below(3)).min(kids.len() - 1);
            let (s, e) = (kids[a].0, kids[b].1);
            let kinds = match r.below(4) {
                0 | 1 => vec![Kind::Quote],
                2 => vec![list_kind(r), Kind::Item],
                _ => vec![Kind::Quote, list_kind(r), Kind::Item],
            };
            // sometimes with much in front of it and behind it
            let (mut insert, mut fill) = (kinds.len(), vec![]);
            if r.pm(30) {
                let n = many(r);
                fill = crowd(r, t, kinds[kinds.len() - 1].ty(), n);
                let before = r.below(n + 1).max(r.below(n + 1)).min(fill.len());
                insert += toks_of(&fill[..before]).len();
            }
            let structure = r.pm(700) && fill.is_empty();
            MStep::Around {
                from: s,
                to: e,
                gf: s,
                gt: e,
                slice: MSlice::flat(chain_of(&kinds, fill)),
                insert,
                structure,
            }
        }
        "lift" => {
            let c: Vec<usize> = ix
                .nodes
                .iter()
                .map(|n| n.0)
                .filter(|i| !ix.ty(*i).textblock())
                .collect();
            if c.is_empty() {
                return None;
            }
            let w = *r.pick(&c);
            let (mut s, mut e) = ix.range(w);
            let (f, to) = (s - 1, e + 1);
            // lift out of nested single-child wrappers at once
            while let Tok::Open(_) = &ix.t[s] {
                if ix.close[s] + 1 == e && !ix.ty(s).textblock() && r.coin() {
                    e = ix.close[s];
                    s += 1;
                } else {
                    break;
                }
            }
            MStep::Around {
                from: f,
                to,
                gf: s,
                gt: e,
                slice: MSlice::default(),
                insert: 0,
                structure: r.pm(700),
            }
        }
        "partial lift" => {
            let c: Vec<usize> = ix
                .nodes
                .iter()
                .map(|n| n.0)
                .filter(|i| !ix.ty(*i).textblock() && ix.kids(*i).len() > 1)
                .collect();
            if c.is_empty() {
                return None;
            }
            let w = *r.pick(&c);
            let kids = ix.kids(w);
            let a = r.below(kids.len());
            let b = (a + r.below(2)).min(kids.len() - 1);
            let (mut s, mut e) = (kids[a].0, kids[b].1);
            let (gf, gt) = (s, e);
            let k = ix.kind(w);
            let mut content = vec![];
            let (mut os, mut oe, mut insert) = (0, 0, 0);
            if a > 0 {
                content.push(MNode::new(k.clone(), vec![]));
                os = 1;
                insert = 1;
            } else {
                s -= 1;
            }
            if b + 1 < kids.len() {
                content.push(MNode::new(k, vec![]));
                oe = 1;
            } else {
                e += 1;
            }
            // out of a list item: the gap is the item's content
            let (mut g1, mut g2) = (gf, gt);
            if a == b && matches!(ix.t[gf], Tok::Open(_)) && ix.ty(gf) == Ty::Item && r.pm(800) {
                g1 += 1;
                g2 -= 1;
            }
            MStep::Around {
                from: s,
                to: e,
                gf: g1,
                gt: g2,
                slice: MSlice { content, os, oe },
                insert,
                structure: r.pm(700),
            }
        }
        "set block type" => {
            let b = pick_tb(r)?;
            let (s, e) = ix.range(b);
            MStep::Around {
                from: s - 1,
                to: e + 1,
                gf: s,
                gt: e,
                slice: MSlice::flat(vec![MNode::new(textblock_kind(r, t), vec![])]),
                insert: 1,
                structure: r.pm(800),
            }
        }
        "retype container" => {
            let c: Vec<usize> = ix
                .nodes
                .iter()
                .map(|n| n.0)
                .filter(|i| !ix.ty(*i).textblock())
                .collect();
            if c.is_empty() {
                return None;
            }
            let w = *r.pick(&c);
            let (s, e) = ix.range(w);
            let k = match ix.ty(w) {
                Ty::Bullet | Ty::Ordered => list_kind(r),
                _ => {
                    if r.coin() {
                        Kind::Quote
                    } else {
                        Kind::Item
                    }
                }
            };
            MStep::Around {
                from: s - 1,
                to: e + 1,
                gf: s,
                gt: e,
                slice: MSlice::flat(vec![MNode::new(k, vec![])]),
                insert: 1,
                structure: r.pm(800),
            }
        }
        "sink" => {
            let c: Vec<usize> = ix
                .nodes
                .iter()
                .map(|n| n.0)
                .filter(|i| {
                    ix.ty(*i) == Ty::Item && *i > 0 && matches!(ix.t[*i - 1], Tok::Close)
                })
                .collect();
            if c.is_empty() {
                return None;
            }
            let i = *r.pick(&c);
            let e = ix.close[i] + 1;
            let list = ix.kind(ix.parent[i]);
            let nested = i >= 2
                && matches!(ix.t[i - 2], Tok::Close)
                && i >= 3
                && matches!(ix.t[i - 3], Tok::Close);
            let (inner, open) = if nested && r.coin() {
                (vec![MNode::new(Kind::Item, vec![])], 3)
            } else {
                (vec![], 1)
            };
            MStep::Around {
                from: i - open,
                to: e,
                gf: i,
                gt: e,
                slice: MSlice {
                    content: vec![MNode::new(
                        Kind::Item,
                        vec![MNode::new(list, inner)],
                    )],
                    os: open,
                    oe: 0,
                },
                insert: 1,
                structure: r.pm(700),
            }
        }
        "add mark" | "remove mark" => {
            let (a, b) = if r.pm(600) {
                let b = pick_tb(r)?;
                let (s, e) = ix.range(b);
                let x = ix.cut_in(r, s, e);
                let y = ix.cut_in(r, s, e);
                (x.min(y), x.max(y))
            } else {
                ix.cut_pair(r)
            };
            if INTENTS[which] == "add mark" {
                MStep::AddMark {
                    from: a,
                    to: b,
                    mark: mark(r, t),
                }
            } else {
                let have: Vec<Mark> = ix.t[a..b]
                    .iter()
                    .filter_map(|t| match t {
                        Tok::U(_, m) if !m.is_empty() => Some(m[0].clone()),
                        _ => None,
                    })
                    .collect();
                let m = if have.is_empty() || r.pm(250) {
                    mark(r, t)
                } else {
                    r.pick(&have).clone()
                };
                MStep::RemoveMark {
                    from: a,
                    to: b,
                    mark: m,
                }
            }
        }
        "paste" | "deep paste" => {
            let deep = INTENTS[which] == "deep paste";
            let own;
            let src: &[Tok] = if r.coin() {
                ix.t
            } else {
                own = toks_of(&blocks(r, t, 3, 3));
                &own
            };
            let sx = Ix::new(src);
            let (a, b) = sx.cut_pair(r);
            let mut s = cut_slice(src, a, b, deep && r.pm(200));
            if deep {
                // open complete nodes at the sides as far as they go
                let mut k: &Vec<MNode> = &s.content;
                let mut os = 0;
                while let Some(n) = k.first() {
                    if n.ty().is_leaf() {
                        break;
                    }
                    os += 1;
                    k = &n.kids;
                }
                let mut k: &Vec<MNode> = &s.content;
                let mut oe = 0;
                while let Some(n) = k.last() {
                    if n.ty().is_leaf() {
                        break;
                    }
                    oe += 1;
                    k = &n.kids;
                }
                s.os = r.below(os + 1);
                s.oe = r.below(oe + 1);
            }
            // find a place where the depths agree
            for _ in 0..6 {
                let (c, d) = if r.coin() {
                    ix.cut_pair(r)
                } else {
                    let p = ix.any_cut(r);
                    (p, p)
                };
                let (dc, dd) = (ix.chain(c).len(), ix.chain(d).len());
                if s.os <= dc && s.oe <= dd && dc - s.os == dd - s.oe {
                    return Some(rep(c, d, s, r.pm(120)));
                }
            }
            return None;
        }
        "random replace" | "random structural" => {
            let (a, b) = ix.cut_pair(r);
            let n = r.below(3);
            let mut content: Vec<MNode> = join_text((0..n).map(|_| any_node(r, t)).collect());
            if r.pm(30) {
                let (ty, n) = (ix.ty(ix.parent[a]), many(r));
                content = crowd(r, t, ty, n);
            }
            let (da, db) = (ix.chain(a).len(), ix.chain(b).len());
            let mut s = MSlice::flat(content);
            // make the depths agree when possible
            if da > db {
                s.os = da - db;
            } else {
                s.oe = db - da;
            }
            if r.pm(300) {
                s.os += 1;
                s.oe += 1;
            }
            rep(a, b, s, INTENTS[which] == "random structural")
        }
        "random around" => {
            let (a, b) = ix.cut_pair(r);
            let c = ix.cut_in(r, a, b);
            let d = ix.cut_in(r, c, b);
            let n = r.below(3);
            let mut s = if r.coin() {
                MSlice::flat(join_text((0..n).map(|_| any_node(r, t)).collect()))
            } else {
                let (x, y) = ix.cut_pair(r);
                cut_slice(ix.t, x, y, false)
            };
            let (da, db) = (ix.chain(a).len(), ix.chain(b).len());
            if r.coin() && s.os == 0 && s.oe == 0 {
                if da > db {
                    s.os = da - db;
                } else {
                    s.oe = db - da;
                }
            }
            let insert = r.below(s.size() + 2);
            MStep::Around {
                from: a,
                to: b,
                gf: c,
                gt: d,
                slice: s,
                insert,
                structure: r.pm(300),
            }
        }
        "spliced around" => {
            // a flat gap, a range around it, and a slice that is open like the ends of the range
            let g = ix.any_cut(r);
            let up = ix.chain(g).len();
            let mut h = g;
            for _ in 0..r.below(3) {
                match ix.cuts.iter().find(|p| **p > h && ix.chain(**p).len() <= up) {
                    Some(p) if ix.chain(*p).len() == up => h = *p,
                    _ => break,
                }
            }
            let near = |r: &mut Rng, p: usize, back: bool| -> usize {
                let i = ix.cuts.iter().position(|x| *x == p).unwrap_or(0);
                let d = r.below(4);
                ix.cuts[if back { i.saturating_sub(d) } else { (i + d).min(ix.cuts.len() - 1) }]
            };
            let (a, b) = (near(r, g, true), near(r, h, false));
            let (ca, cb) = (ix.chain(a), ix.chain(b));
            let os = r.below(ca.len() + 1);
            let oe = (cb.len() + os).checked_sub(ca.len())?;
            if oe > cb.len() {
                return None;
            }
            let kinds = |c: &[usize]| -> Vec<Kind> { c.iter().map(|i| ix.kind(*i)).collect() };
            let (ka, kb) = (kinds(&ca[ca.len() - os..]), kinds(&cb[cb.len() - oe..]));
            let filler = |r: &mut Rng, parent: Option<Ty>| -> Vec<MNode> {
                match parent {
                    Some(p) if matches!(p, Ty::Para | Ty::Heading | Ty::Code) => inline(r, t, p),
                    Some(Ty::Bullet | Ty::Ordered) => {
                        (0..r.below(2)).map(|_| item(r, t, 1)).collect()
                    }
                    _ => (0..r.below(2)).map(|_| block(r, t, 1)).collect(),
                }
            };
            let outer = ca.len().checked_sub(os + 1).map(|i| ix.ty(ca[i]));
            let mut content = vec![];
            if os > 0 && oe > 0 && r.coin() {
                let f = filler(r, ka.last().map(|k| k.ty()));
                content = chain_of(&ka, f);
            } else {
                if os > 0 {
                    let f = filler(r, ka.last().map(|k| k.ty()));
                    content.extend(chain_of(&ka, f));
                }
                content.extend(filler(r, outer));
                if r.pm(400) {
                    content.extend(filler(r, outer));
                }
                if oe > 0 {
                    let f = filler(r, kb.last().map(|k| k.ty()));
                    content.extend(chain_of(&kb, f));
                }
            }
            let slice = MSlice {
                content: join_text(content),
                os,
                oe,
            };
            let insert = r.below(slice.size() + 1);
            MStep::Around {
                from: a,
                to: b,
                gf: g,
                gt: h,
                slice,
                insert,
                structure: r.pm(200),
            }
        }
        "insert leaf" => {
            let b = pick_tb(r)?;
            let (s, e) = ix.range(b);
            let p = ix.cut_in(r, s, e);
            let n = match (ix.ty(b), r.below(3)) {
                (Ty::Para, 0 | 1) => MNode::new(Kind::Break, vec![]),
                _ => image(r, t),
            };
            rep(p, p, MSlice::flat(vec![n]), r.pm(200))
        }
        "structural on boundary" => {
            // the longest run of ends and starts, or a part of it
            if r.pm(150) {
                let mut best = (0, 0);
                let mut p = 0;
                let mut closes = 0;
                while p < ix.t.len() {
                    match ix.t[p] {
                        Tok::Close => closes += 1,
                        Tok::Open(_) if closes > 0 => {
                            let opens = ix.t[p..].iter().take_while(|t| matches!(t, Tok::Open(_))).count();
                            best = best.max((opens.min(closes), p));
                            closes = 0;
                        }
                        _ => closes = 0,
                    }
                    p += 1;
                }
                let (k, p) = best;
                if k > 0 {
                    let d = if r.coin() { k } else { r.range(1, k) };
                    return Some(del(p - d, p + d, true));
                }
            }
            // a range around a boundary, sometimes reaching into what lies beyond
            let p = ix.any_cut(r);
            let mut a = p;
            while a > 0 && matches!(ix.t[a - 1], Tok::Close | Tok::Open(_)) && r.pm(700) {
                a -= 1;
            }
            let mut b = p;
            while b < ix.t.len() && matches!(ix.t[b], Tok::Open(_) | Tok::Close) && r.pm(700) {
                b += 1;
            }
            if r.pm(250) && a > 0 && is_boundary(ix.t, a - 1) {
                a -= 1;
            }
            if r.pm(250) && b < ix.t.len() && is_boundary(ix.t, b + 1) {
                b += 1;
            }
            let (ca, cb) = (ix.chain(a), ix.chain(b));
            let d = ca.iter().zip(&cb).take_while(|(x, y)| x == y).count();
            // rebuild what is there (a structural no-op), or delete it
            if r.coin() {
                rep(a, b, cut_slice(ix.t, a, b, false), true)
            } else if ca.len() == cb.len() {
                del(a, b, true)
            } else {
                let mk = |c: &[usize]| -> Vec<Kind> { c[d..].iter().map(|i| ix.kind(*i)).collect() };
                let mut v = chain_of(&mk(&ca), vec![]);
                v.extend(chain_of(&mk(&cb), vec![]));
                rep(
                    a,
                    b,
                    MSlice {
                        content: v,
                        os: ca.len() - d,
                        oe: cb.len() - d,
                    },
                    true,
                )
            }
        }
        _ => unreachable!(),
    })
}

/// An edit a user would make on this document: mostly ones that fit.
pub fn edit(r: &mut Rng, t: &Taste, doc: &[Tok]) -> (usize, MStep) {
    let ix = Ix::new(doc);
    let keep_any = r.pm(60);
    let mut last = None;
    for _ in 0..24 {
        let w = r.weighted(&t.intents);
        if let Some(s) = intent(r, t, &ix, w) {
            let grows = doc.len() > t.max_len;
            let o = apply(doc, &s);
            let fits = match (&o.verdict, &o.result) {
                (Verdict::Accept, Some(n)) => {
                    (!grows || n.len() <= doc.len())
                        && max_depth(n) <= t.max_depth
                        && n != doc
                }
                _ => false,
            };
            // random shapes are as interesting when they do not fit
            let near_miss = INTENTS[w].contains("random") || INTENTS[w] == "spliced around";
            if fits || keep_any || (near_miss && r.pm(100)) {
                return (w, s);
            }
            last = Some((w, s));
        }
    }
    last.unwrap_or((0, del(0, 0, false)))
}

const HUGE: [usize; 8] = [
    usize::MAX,
    usize::MAX - 1,
    usize::MAX - 2,
    usize::MAX / 2,
    u32::MAX as usize,
    1 << 40,
    i64::MAX as usize,
    1000,
];

fn nudge(r: &mut Rng, x: &mut usize, len: usize) {
    *x = match r.below(8) {
        0 => x.saturating_sub(1),
        1 => x.saturating_add(1),
        2 => x.saturating_sub(r.below(6)),
        3 => x.saturating_add(r.below(6)),
        4 => r.below(len + 3),
        5 => *r.pick(&HUGE),
        6 => len,
        _ => 0,
    };
}

/// Break a step in one or more ways.
pub fn mutate(r: &mut Rng, t: &Taste, s: &mut MStep, len: usize) {
    for _ in 0..1 + r.below(2) {
        match s {
            MStep::AddMark { from, to, mark: m } | MStep::RemoveMark { from, to, mark: m } => {
                match r.below(4) {
                    0 => nudge(r, from, len),
                    1 => nudge(r, to, len),
                    2 => std::mem::swap(from, to),
                    _ => *m = mark(r, t),
                }
            }
            MStep::Replace {
                from,
                to,
                slice,
                structure,
            } => match r.below(7) {
                0 => nudge(r, from, len),
                1 => nudge(r, to, len),
                2 => std::mem::swap(from, to),
                3 => *structure = !*structure,
                _ => mutate_slice(r, t, slice),
            },
            MStep::Around {
                from,
                to,
                gf,
                gt,
                slice,
                insert,
                structure,
            } => match r.below(12) {
                0 => nudge(r, from, len),
                1 => nudge(r, to, len),
                2 => std::mem::swap(from, to),
                3 => nudge(r, gf, len),
                4 => nudge(r, gt, len),
                5 => std::mem::swap(gf, gt),
                6 | 7 => nudge(r, insert, 6),
                8 => *structure = !*structure,
                _ => mutate_slice(r, t, slice),
            },
        }
    }
}

fn mutate_slice(r: &mut Rng, t: &Taste, s: &mut MSlice) {
    match r.below(9) {
        0 => s.os = s.os.saturating_add(1 + r.below(2)),
        1 => s.oe = s.oe.saturating_add(1 + r.below(2)),
        2 => s.os = s.os.saturating_sub(1),
        3 => s.oe = s.oe.saturating_sub(1),
        4 => s.os = *r.pick(&HUGE),
        5 => s.oe = *r.pick(&HUGE),
        6 => s.content = (0..r.below(3)).map(|_| wild(r, t, 3)).collect(),
        7 => s.content.push(wild(r, t, 2)),
        _ => {
            if !s.content.is_empty() {
                let i = r.below(s.content.len());
                let n = wild(r, t, 1);
                if s.content[i].ty().is_leaf() {
                    s.content[i] = n;
                } else {
                    let l = s.content[i].kids.len();
                    let at = r.below(l + 1);
                    s.content[i].kids.insert(at, n);
                }
            }
        }
    }
}

/// A step from nowhere.
pub fn hostile(r: &mut Rng, t: &Taste, doc: &[Tok]) -> MStep {
    let mut taste = t.clone();
    taste.intents = vec![1; INTENTS.len()];
    let ix = Ix::new(doc);
    let mut s = None;
    for _ in 0..6 {
        let w = r.below(INTENTS.len());
        s = intent(r, &taste, &ix, w);
        if s.is_some() {
            break;
        }
    }
    let mut s = s.unwrap_or(del(0, 0, false));
    mutate(r, t, &mut s, doc.len());
    s
}

/// Damage bytes in transit.
pub fn corrupt(r: &mut Rng, b: &[u8]) -> Vec<u8> {
    let mut v = b.to_vec();
    for _ in 0..1 + r.below(2) {
        if v.is_empty() {
            return v;
        }
        let i = r.below(v.len());
        match r.below(9) {
            0 => v[i] ^= 1 << r.below(8),
            1 => v.truncate(i),
            2 if r.pm(300) => {
                // what this schema does not know, or knows in another place
                let known: [&str; 15] = [
                    "paragraph", "heading", "blockquote", "code_block", "ordered_list", "bullet_list",
                    "list_item", "text", "image", "hard_break", "horizontal_rule", "strong", "em", "code", "link",
                ];
                let at: Vec<(usize, usize)> = known
                    .iter()
                    .flat_map(|k| {
                        let q = format!("\"{}\"", k).into_bytes();
                        let n = q.len();
                        let v = &v;
                        (0..(v.len() + 1).saturating_sub(n))
                            .filter(move |i| v[*i..*i + n] == q[..])
                            .map(move |i| (i, n))
                            .collect::<Vec<_>>()
                    })
                    .collect();
                if !at.is_empty() {
                    let (p, n) = *r.pick(&at);
                    let c = *r.pick(&["\"table\"", "\"strike\"", "\"\"", "\"Text\"", "null", "7", "\"paragraph\"", "\"text\"", "\"em\""]);
                    v.splice(p..p + n, c.bytes());
                }
            }
            2 => {
                v.remove(i);
            }
            3 => {
                let c = *r.pick(b"{}[]\",:0123456789nulltruefalse- ");
                v.insert(i, c);
            }
            4 => {
                // another digit: still decodes
                let d: Vec<usize> = (0..v.len()).filter(|i| v[*i].is_ascii_digit()).collect();
                if !d.is_empty() {
                    let i = *r.pick(&d);
                    v[i] = b'0' + r.below(10) as u8;
                }
            }
            5 => {
                let j = r.below(v.len());
                let (i, j) = (i.min(j), i.max(j));
                let part = v[i..j.min(i + 40)].to_vec();
                for (k, c) in part.into_iter().enumerate() {
                    v.insert(i + k, c);
                }
            }
            6 => {
                let d: Vec<usize> = (0..v.len()).filter(|i| v[*i].is_ascii_digit()).collect();
                if !d.is_empty() {
                    let i = *r.pick(&d);
                    let big = *r.pick(&[
                        "18446744073709551615",
                        "18446744073709551614",
                        "9223372036854775808",
                        "4294967296",
                        "-1",
                        "1.0",
                        "1e3",
                    ]);
                    v.splice(i..i + 1, big.bytes());
                }
            }
            _ => {
                // a word for another
                let words: [(&str, &str); 8] = [
                    ("paragraph", "list_item"),
                    ("paragraph", "doc"),
                    ("text", "hard_break"),
                    ("replace", "replaceAround"),
                    ("addMark", "removeMark"),
                    ("strong", "em"),
                    ("false", "true"),
                    ("true", "false"),
                ];
                let (a, c) = *r.pick(&words);
                if let Some(p) = v.windows(a.len()).position(|w| w == a.as_bytes()) {
                    v.splice(p..p + a.len(), c.bytes());
                }
            }
        }
    }
    v
}
