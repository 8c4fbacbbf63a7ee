//! The reference model: a document is a flat vector of tokens, a step is a splice or a map over it.
//! Shares no code with the library and holds no cached state.

use serde::{Deserialize, Serialize};
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Serialize, Deserialize)]
pub enum Kind {
    Doc,
    Heading(u8),
    Code(String),
    Quote,
    Para,
    Bullet(bool),
    Ordered(usize, bool),
    Item,
    Rule,
    Break,
    Image { src: String, alt: String, title: String },
    Text,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum Ty {
    Doc,
    Heading,
    Code,
    Quote,
    Para,
    Bullet,
    Ordered,
    Item,
    Rule,
    Break,
    Image,
    Text,
}

pub const ALL_TY: [Ty; 12] = [
    Ty::Doc,
    Ty::Heading,
    Ty::Code,
    Ty::Quote,
    Ty::Para,
    Ty::Bullet,
    Ty::Ordered,
    Ty::Item,
    Ty::Rule,
    Ty::Break,
    Ty::Image,
    Ty::Text,
];

impl Kind {
    pub fn ty(&self) -> Ty {
        match self {
            Kind::Doc => Ty::Doc,
            Kind::Heading(_) => Ty::Heading,
            Kind::Code(_) => Ty::Code,
            Kind::Quote => Ty::Quote,
            Kind::Para => Ty::Para,
            Kind::Bullet(_) => Ty::Bullet,
            Kind::Ordered(..) => Ty::Ordered,
            Kind::Item => Ty::Item,
            Kind::Rule => Ty::Rule,
            Kind::Break => Ty::Break,
            Kind::Image { .. } => Ty::Image,
            Kind::Text => Ty::Text,
        }
    }
}

impl Ty {
    pub fn is_leaf(self) -> bool {
        matches!(self, Ty::Rule | Ty::Break | Ty::Image | Ty::Text)
    }
    /// Member of the schema's "block" group.
    pub fn in_block_group(self) -> bool {
        matches!(
            self,
            Ty::Para | Ty::Quote | Ty::Heading | Ty::Rule | Ty::Code | Ty::Ordered | Ty::Bullet
        )
    }
    pub fn inline(self) -> bool {
        matches!(self, Ty::Text | Ty::Image | Ty::Break)
    }
    pub fn textblock(self) -> bool {
        matches!(self, Ty::Para | Ty::Heading | Ty::Code)
    }
    pub fn allows_marks(self) -> bool {
        matches!(self, Ty::Para | Ty::Heading)
    }
    /// Content rule, as an automaton: state = number of children so far, capped at 1.
    pub fn next_ok(self, n: usize, child: Ty) -> bool {
        match self {
            Ty::Doc | Ty::Quote => child.in_block_group(),
            Ty::Item => {
                if n == 0 {
                    child == Ty::Para
                } else {
                    child.in_block_group()
                }
            }
            Ty::Bullet | Ty::Ordered => child == Ty::Item,
            Ty::Para => child.inline(),
            Ty::Heading => matches!(child, Ty::Text | Ty::Image),
            Ty::Code => child == Ty::Text,
            _ => false,
        }
    }
    pub fn end_ok(self, n: usize) -> bool {
        match self {
            Ty::Doc | Ty::Quote | Ty::Item | Ty::Bullet | Ty::Ordered => n > 0,
            _ => true,
        }
    }
    pub fn content_ok(self, kids: &[Ty]) -> bool {
        kids.iter().enumerate().all(|(i, k)| self.next_ok(i, *k)) && self.end_ok(kids.len())
    }
    /// Two nodes may be joined iff they are of one type or their content can start with a common
    /// child type.
    pub fn joins(self, other: Ty) -> bool {
        self == other
            || ALL_TY
                .iter()
                .any(|c| self.next_ok(0, *c) && other.next_ok(0, *c))
    }
}

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Serialize, Deserialize)]
pub enum Mark {
    Strong,
    Em,
    Code,
    Link { href: String, title: String },
}

impl Mark {
    pub fn rank(&self) -> u8 {
        match self {
            Mark::Strong => 0,
            Mark::Em => 1,
            Mark::Code => 2,
            Mark::Link { .. } => 3,
        }
    }
}

pub type Marks = Rc<Vec<Mark>>;

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct MNode {
    pub kind: Kind,
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub kids: Vec<MNode>,
    #[serde(default, skip_serializing_if = "String::is_empty")]
    pub text: String,
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub marks: Vec<Mark>,
}

impl MNode {
    pub fn new(kind: Kind, kids: Vec<MNode>) -> MNode {
        MNode {
            kind,
            kids,
            text: String::new(),
            marks: vec![],
        }
    }
    pub fn text(t: &str, marks: Vec<Mark>) -> MNode {
        MNode {
            kind: Kind::Text,
            kids: vec![],
            text: t.to_string(),
            marks,
        }
    }
    pub fn ty(&self) -> Ty {
        self.kind.ty()
    }
    pub fn size(&self) -> usize {
        match self.ty() {
            Ty::Text => self.text.encode_utf16().count(),
            t if t.is_leaf() => 1,
            _ => 2 + size_of(&self.kids),
        }
    }
}

pub fn size_of(kids: &[MNode]) -> usize {
    kids.iter().map(|k| k.size()).sum()
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Tok {
    Open(Rc<Kind>),
    Close,
    Leaf(Rc<Kind>),
    U(u16, Marks),
}

pub type Toks = Vec<Tok>;

pub fn push_node(n: &MNode, out: &mut Toks) {
    match n.ty() {
        Ty::Text => {
            let m = Rc::new(n.marks.clone());
            for u in n.text.encode_utf16() {
                out.push(Tok::U(u, m.clone()));
            }
        }
        t if t.is_leaf() => out.push(Tok::Leaf(Rc::new(n.kind.clone()))),
        _ => {
            out.push(Tok::Open(Rc::new(n.kind.clone())));
            for k in &n.kids {
                push_node(k, out);
            }
            out.push(Tok::Close);
        }
    }
}

pub fn toks_of(kids: &[MNode]) -> Toks {
    let mut v = Vec::with_capacity(64);
    for k in kids {
        push_node(k, &mut v);
    }
    v
}

/// Rebuild the trees of a balanced token sequence (text units with equal marks form one node).
pub fn trees_of(toks: &[Tok]) -> Vec<MNode> {
    let mut stack: Vec<(Kind, Vec<MNode>)> = vec![(Kind::Doc, vec![])];
    let mut i = 0;
    while i < toks.len() {
        match &toks[i] {
            Tok::Open(k) => {
                stack.push(((**k).clone(), vec![]));
                i += 1;
            }
            Tok::Close => {
                let (k, kids) = stack.pop().expect("balanced");
                stack
                    .last_mut()
                    .expect("balanced")
                    .1
                    .push(MNode::new(k, kids));
                i += 1;
            }
            Tok::Leaf(k) => {
                stack
                    .last_mut()
                    .unwrap()
                    .1
                    .push(MNode::new((**k).clone(), vec![]));
                i += 1;
            }
            Tok::U(_, m) => {
                let mut units = vec![];
                while i < toks.len() {
                    if let Tok::U(u, m2) = &toks[i] {
                        if m2 == m {
                            units.push(*u);
                            i += 1;
                            continue;
                        }
                    }
                    break;
                }
                stack.last_mut().unwrap().1.push(MNode {
                    kind: Kind::Text,
                    kids: vec![],
                    text: String::from_utf16_lossy(&units),
                    marks: (**m).clone(),
                });
            }
        }
    }
    assert_eq!(stack.len(), 1, "balanced");
    stack.pop().unwrap().1
}

pub fn is_boundary(toks: &[Tok], pos: usize) -> bool {
    if pos == 0 || pos >= toks.len() {
        return true;
    }
    match (&toks[pos - 1], &toks[pos]) {
        (Tok::U(a, _), Tok::U(b, _)) => {
            !((0xD800..0xDC00).contains(a) && (0xDC00..0xE000).contains(b))
        }
        _ => true,
    }
}

/// Indexes of the open tokens around a position, outermost first (the root is not included).
pub fn ancestors(toks: &[Tok], pos: usize) -> Vec<usize> {
    let mut st = vec![];
    for (i, t) in toks[..pos].iter().enumerate() {
        match t {
            Tok::Open(_) => st.push(i),
            Tok::Close => {
                st.pop();
            }
            _ => {}
        }
    }
    st
}

fn kind_at(toks: &[Tok], i: usize) -> Ty {
    match &toks[i] {
        Tok::Open(k) | Tok::Leaf(k) => k.ty(),
        _ => Ty::Text,
    }
}

/// Check a whole document (content of the root) against the schema.
pub fn check_valid(toks: &[Tok]) -> Result<(), String> {
    struct Fr {
        ty: Ty,
        n: usize,
        last_text: Option<Marks>,
    }
    fn child(fr: &mut Fr, ty: Ty) -> Result<(), String> {
        if !fr.ty.next_ok(fr.n, ty) {
            return Err(format!("{:?} not allowed as child {} of {:?}", ty, fr.n, fr.ty));
        }
        fr.n += 1;
        Ok(())
    }
    let mut st = vec![Fr {
        ty: Ty::Doc,
        n: 0,
        last_text: None,
    }];
    for t in toks {
        match t {
            Tok::Open(k) => {
                let fr = st.last_mut().unwrap();
                fr.last_text = None;
                child(fr, k.ty())?;
                st.push(Fr {
                    ty: k.ty(),
                    n: 0,
                    last_text: None,
                });
            }
            Tok::Close => {
                let fr = st.pop().unwrap();
                if st.is_empty() {
                    return Err("unbalanced".into());
                }
                if !fr.ty.end_ok(fr.n) {
                    return Err(format!("{:?} without content", fr.ty));
                }
            }
            Tok::Leaf(k) => {
                let fr = st.last_mut().unwrap();
                fr.last_text = None;
                child(fr, k.ty())?;
            }
            Tok::U(_, m) => {
                let fr = st.last_mut().unwrap();
                if fr.last_text.as_ref() != Some(m) {
                    fr.last_text = Some(m.clone());
                    child(fr, Ty::Text)?;
                    if !m.is_empty() && !fr.ty.allows_marks() {
                        return Err(format!("marks {:?} in {:?}", m, fr.ty));
                    }
                    if m.windows(2).any(|w| w[0].rank() >= w[1].rank()) {
                        return Err(format!("mark set not canonical: {:?}", m));
                    }
                }
            }
        }
    }
    if st.len() != 1 {
        return Err("unbalanced".into());
    }
    if !st[0].ty.end_ok(st[0].n) {
        return Err("empty document".into());
    }
    Ok(())
}

#[derive(Clone, Debug, Default, PartialEq, Eq, Serialize, Deserialize)]
pub struct MSlice {
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub content: Vec<MNode>,
    #[serde(default)]
    pub os: usize,
    #[serde(default)]
    pub oe: usize,
}

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum MStep {
    Replace {
        from: usize,
        to: usize,
        slice: MSlice,
        structure: bool,
    },
    Around {
        from: usize,
        to: usize,
        gf: usize,
        gt: usize,
        slice: MSlice,
        insert: usize,
        structure: bool,
    },
    AddMark {
        from: usize,
        to: usize,
        mark: Mark,
    },
    RemoveMark {
        from: usize,
        to: usize,
        mark: Mark,
    },
}

impl MStep {
    pub fn name(&self) -> &'static str {
        match self {
            MStep::Replace { structure: false, .. } => "replace",
            MStep::Replace { .. } => "replace-structural",
            MStep::Around { structure: false, .. } => "around",
            MStep::Around { .. } => "around-structural",
            MStep::AddMark { .. } => "addMark",
            MStep::RemoveMark { .. } => "removeMark",
        }
    }
    pub fn prop(&self) -> &'static str {
        match self {
            MStep::Replace { .. } => "C05",
            MStep::Around { .. } => "C07",
            _ => "C06",
        }
    }
    pub fn structure(&self) -> bool {
        matches!(
            self,
            MStep::Replace { structure: true, .. } | MStep::Around { structure: true, .. }
        )
    }
    pub fn set_structure(&mut self, v: bool) {
        match self {
            MStep::Replace { structure, .. } | MStep::Around { structure, .. } => *structure = v,
            _ => {}
        }
    }
    pub fn slice(&self) -> Option<&MSlice> {
        match self {
            MStep::Replace { slice, .. } | MStep::Around { slice, .. } => Some(slice),
            _ => None,
        }
    }
    pub fn span(&self) -> (usize, usize) {
        match self {
            MStep::Replace { from, to, .. }
            | MStep::Around { from, to, .. }
            | MStep::AddMark { from, to, .. }
            | MStep::RemoveMark { from, to, .. } => (*from, *to),
        }
    }
}

impl MSlice {
    pub fn flat(content: Vec<MNode>) -> MSlice {
        MSlice {
            content,
            os: 0,
            oe: 0,
        }
    }
    pub fn size(&self) -> usize {
        size_of(&self.content).saturating_sub(self.os).saturating_sub(self.oe)
    }
    /// The open depths are backed by nested non-leaf nodes.
    pub fn deep_enough(&self) -> bool {
        let mut k = &self.content;
        for _ in 0..self.os {
            match k.first() {
                Some(n) if !n.ty().is_leaf() => k = &n.kids,
                _ => return false,
            }
        }
        let mut k = &self.content;
        for _ in 0..self.oe {
            match k.last() {
                Some(n) if !n.ty().is_leaf() => k = &n.kids,
                _ => return false,
            }
        }
        true
    }
}

pub fn text_normal(kids: &[MNode]) -> bool {
    for (i, k) in kids.iter().enumerate() {
        if k.ty() == Ty::Text {
            if k.text.is_empty() {
                return false;
            }
            if k.marks.windows(2).any(|w| w[0].rank() >= w[1].rank()) {
                return false;
            }
            if i > 0 && kids[i - 1].ty() == Ty::Text && kids[i - 1].marks == k.marks {
                return false;
            }
        }
        if !text_normal(&k.kids) {
            return false;
        }
    }
    true
}

pub fn has_empty_text(kids: &[MNode]) -> bool {
    kids.iter()
        .any(|k| (k.ty() == Ty::Text && k.text.is_empty()) || has_empty_text(&k.kids))
}

fn node_ok(n: &MNode) -> bool {
    let tys: Vec<Ty> = n.kids.iter().map(|k| k.ty()).collect();
    if n.ty().is_leaf() {
        return true;
    }
    n.ty().content_ok(&tys)
        && n
            .kids
            .iter()
            .all(|k| k.marks.is_empty() || n.ty().allows_marks())
}

fn closed_ok(kids: &[MNode], os: usize, oe: usize) -> bool {
    let len = kids.len();
    kids.iter().enumerate().all(|(i, k)| {
        let s = if i == 0 { os } else { 0 };
        let e = if i + 1 == len { oe } else { 0 };
        let open = s > 0 || e > 0;
        (open || node_ok(k)) && closed_ok(&k.kids, s.saturating_sub(1), e.saturating_sub(1))
    })
}

/// Like `closed_ok`, but the children of the node that contains offset `at` need not be complete:
/// something is about to be put there.
fn waiting_ok(kids: &[MNode], os: usize, oe: usize, at: usize) -> bool {
    let len = kids.len();
    let mut pos = 0;
    kids.iter().enumerate().all(|(i, k)| {
        let size = toks_of(std::slice::from_ref(k)).len();
        let inside = pos < at && at < pos + size && k.ty() != Ty::Text;
        let offset = at.wrapping_sub(pos + 1);
        pos += size;
        let s = if i == 0 { os } else { 0 };
        let e = if i + 1 == len { oe } else { 0 };
        let (s1, e1) = (s.saturating_sub(1), e.saturating_sub(1));
        if !inside {
            return (s > 0 || e > 0 || node_ok(k)) && closed_ok(&k.kids, s1, e1);
        }
        let mut p = 0;
        let deepest = !k.kids.iter().any(|c| {
            let n = toks_of(std::slice::from_ref(c)).len();
            let here = p < offset && offset < p + n && c.ty() != Ty::Text;
            p += n;
            here
        });
        let marks_ok = k.ty().allows_marks() || k.kids.iter().all(|c| c.marks.is_empty());
        let self_ok = s > 0 || e > 0 || if deepest { marks_ok } else { node_ok(k) };
        self_ok && waiting_ok(&k.kids, s1, e1, offset)
    })
}

/// Apart from where it waits for the gap, the slice of a replace-around step conforms.
pub fn slice_waits(s: &MSlice, insert: usize) -> bool {
    match insert.checked_add(s.os) {
        Some(at) => text_normal(&s.content) && s.deep_enough() && waiting_ok(&s.content, s.os, s.oe, at),
        None => false,
    }
}

/// The content a slice brings in conforms to the schema: its complete nodes are valid and its text
/// is in normal form. (Its open nodes are judged when they are joined.)
pub fn slice_conforms(s: &MSlice) -> bool {
    text_normal(&s.content) && closed_ok(&s.content, s.os, s.oe)
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Verdict {
    Accept,
    /// must be refused; the flag says that only the structure flag forbids it
    Refuse(&'static str),
    /// the properties do not say
    Either,
}

#[derive(Clone, Debug)]
pub struct Outcome {
    pub verdict: Verdict,
    /// what the document must be if the step is accepted
    pub result: Option<Toks>,
    /// every node and text brought in conforms to the schema
    pub conforming: bool,
}

fn refuse(why: &'static str) -> Outcome {
    Outcome {
        verdict: Verdict::Refuse(why),
        result: None,
        conforming: false,
    }
}

fn either() -> Outcome {
    Outcome {
        verdict: Verdict::Either,
        result: None,
        conforming: false,
    }
}

pub const STRUCT: &str = "structural step would overwrite content";

/// close* open*
pub fn only_boundaries(toks: &[Tok]) -> bool {
    let mut opened = false;
    for t in toks {
        match t {
            Tok::Open(_) => opened = true,
            Tok::Close => {
                if opened {
                    return false;
                }
            }
            _ => return false,
        }
    }
    true
}

fn range_ok(doc: &[Tok], from: usize, to: usize) -> bool {
    from <= to && to <= doc.len() && is_boundary(doc, from) && is_boundary(doc, to)
}

/// Replace `from..to` by content tokens `toks` (open `os`/`oe`).
fn splice(
    doc: &[Tok],
    from: usize,
    to: usize,
    toks: &[Tok],
    os: usize,
    oe: usize,
    conforming: bool,
) -> Outcome {
    if !range_ok(doc, from, to) {
        return refuse("positions");
    }
    let af = ancestors(doc, from);
    let at = ancestors(doc, to);
    if os > af.len() || oe > at.len() || af.len() - os != at.len() - oe {
        return refuse("open depths");
    }
    let opens = toks.iter().take_while(|t| matches!(t, Tok::Open(_))).count();
    let closes = toks.iter().rev().take_while(|t| **t == Tok::Close).count();
    if os > opens || oe > closes {
        return either();
    }
    let base = af.len() - os;
    // joins of the nodes around the range with each other
    for k in 0..base {
        if !kind_at(doc, af[k]).joins(kind_at(doc, at[k])) {
            return refuse("join across");
        }
    }
    // left side: document onto slice
    for k in 0..os {
        if !kind_at(doc, af[base + k]).joins(kind_at(toks, k)) {
            return refuse("join left");
        }
    }
    // right side: slice onto document
    let ends = ancestors(toks, toks.len() - oe);
    for k in 0..oe {
        if !kind_at(toks, ends[k]).joins(kind_at(doc, at[base + k])) {
            return refuse("join right");
        }
    }
    let inner = &toks[os..toks.len() - oe];
    let mut res = Vec::with_capacity(doc.len() + inner.len());
    res.extend_from_slice(&doc[..from]);
    res.extend_from_slice(inner);
    res.extend_from_slice(&doc[to..]);
    if !conforming {
        return Outcome {
            verdict: Verdict::Either,
            result: Some(res),
            conforming: false,
        };
    }
    match check_valid(&res) {
        Ok(()) => Outcome {
            verdict: Verdict::Accept,
            result: Some(res),
            conforming: true,
        },
        Err(_) => refuse("content"),
    }
}

pub fn apply(doc: &[Tok], step: &MStep) -> Outcome {
    match step {
        MStep::Replace {
            from,
            to,
            slice,
            structure,
        } => {
            if !range_ok(doc, *from, *to) {
                return refuse("positions");
            }
            if *structure && !only_boundaries(&doc[*from..*to]) {
                return refuse(STRUCT);
            }
            replace(doc, *from, *to, slice)
        }
        MStep::Around {
            from,
            to,
            gf,
            gt,
            slice,
            insert,
            structure,
        } => {
            if from > to || *to > doc.len() {
                return refuse("positions");
            }
            if !(from <= gf && gf <= gt && gt <= to) {
                return either();
            }
            if gf == gt && !is_boundary(doc, *gf) {
                return either();
            }
            for p in [from, to, gf, gt] {
                if !is_boundary(doc, *p) {
                    return refuse("positions");
                }
            }
            if *structure
                && !(only_boundaries(&doc[*from..*gf]) && only_boundaries(&doc[*gt..*to]))
            {
                return refuse(STRUCT);
            }
            if gf != gt && ancestors(doc, *gf) != ancestors(doc, *gt) {
                return refuse("gap not flat");
            }
            if gf == gt {
                // nothing to check: an empty gap is flat
            }
            let gap = &doc[*gf..*gt];
            if has_empty_text(&slice.content) {
                return either();
            }
            let toks = toks_of(&slice.content);
            let dist = match insert.checked_add(slice.os) {
                Some(d) if d <= toks.len() => d,
                _ => return refuse("insertion point"),
            };
            if !is_boundary(&toks, dist) {
                return refuse("insertion point");
            }
            if !slice.deep_enough() {
                return either();
            }
            if dist > toks.len() - slice.oe {
                return either();
            }
            let mut ins = Vec::with_capacity(toks.len() + gap.len());
            ins.extend_from_slice(&toks[..dist]);
            ins.extend_from_slice(gap);
            ins.extend_from_slice(&toks[dist..]);
            // the node that receives the gap
            let chain = ancestors(&toks, dist);
            if let Some(&parent) = chain.last() {
                let level = chain.len();
                let start_chain = ancestors(&toks, slice.os.min(toks.len()));
                let end_chain = ancestors(&toks, toks.len() - slice.oe);
                let open = (level <= slice.os && start_chain.get(level - 1) == Some(&parent))
                    || (level <= slice.oe && end_chain.get(level - 1) == Some(&parent));
                if !open {
                    let ty = kind_at(&toks, parent);
                    let kids = child_types(&ins, parent);
                    if !ty.content_ok(&kids) {
                        return refuse("gap does not fit");
                    }
                    if !ty.allows_marks() && top_level_marks(gap) {
                        return refuse("gap does not fit");
                    }
                }
            }
            let trees = trees_of(&ins);
            let conforming =
                text_normal(&slice.content) && closed_ok(&trees, slice.os, slice.oe);
            splice(doc, *from, *to, &ins, slice.os, slice.oe, conforming)
        }
        MStep::AddMark { from, to, mark } => marks(doc, *from, *to, |m| {
            let mut v: Vec<Mark> = m
                .iter()
                .filter(|x| x.rank() != mark.rank())
                .cloned()
                .collect();
            v.push(mark.clone());
            v.sort_by_key(|m| m.rank());
            v
        }),
        MStep::RemoveMark { from, to, mark } => marks(doc, *from, *to, |m| {
            m.iter().filter(|x| *x != mark).cloned().collect()
        }),
    }
}

fn replace(doc: &[Tok], from: usize, to: usize, slice: &MSlice) -> Outcome {
    if !range_ok(doc, from, to) {
        return refuse("positions");
    }
    if has_empty_text(&slice.content) {
        return either();
    }
    let toks = toks_of(&slice.content);
    if !slice.deep_enough() {
        // Only the depth arithmetic is specified
        let af = ancestors(doc, from).len();
        let at = ancestors(doc, to).len();
        if slice.os > af || slice.oe > at || af - slice.os != at - slice.oe {
            return refuse("open depths");
        }
        return either();
    }
    splice(doc, from, to, &toks, slice.os, slice.oe, slice_conforms(slice))
}

pub fn child_types(toks: &[Tok], open: usize) -> Vec<Ty> {
    let mut depth = 0;
    let mut out = vec![];
    let mut last: Option<Marks> = None;
    for t in &toks[open + 1..] {
        match t {
            Tok::Open(k) => {
                if depth == 0 {
                    out.push(k.ty());
                    last = None;
                }
                depth += 1;
            }
            Tok::Close => {
                if depth == 0 {
                    break;
                }
                depth -= 1;
            }
            Tok::Leaf(k) => {
                if depth == 0 {
                    out.push(k.ty());
                    last = None;
                }
            }
            Tok::U(_, m) => {
                if depth == 0 && last.as_ref() != Some(m) {
                    out.push(Ty::Text);
                    last = Some(m.clone());
                }
            }
        }
    }
    out
}

pub fn top_level_marks(toks: &[Tok]) -> bool {
    let mut depth = 0;
    for t in toks {
        match t {
            Tok::Open(_) => depth += 1,
            Tok::Close => depth -= 1,
            Tok::U(_, m) if depth == 0 && !m.is_empty() => return true,
            _ => {}
        }
    }
    false
}

fn marks<F: Fn(&Vec<Mark>) -> Vec<Mark>>(doc: &[Tok], from: usize, to: usize, f: F) -> Outcome {
    if !range_ok(doc, from, to) {
        return refuse("positions");
    }
    let mut res = doc.to_vec();
    let mut st: Vec<Ty> = vec![];
    let mut memo: Option<(Marks, Marks)> = None;
    for (i, t) in doc.iter().enumerate() {
        match t {
            Tok::Open(k) => st.push(k.ty()),
            Tok::Close => {
                st.pop();
            }
            Tok::U(u, m) if i >= from && i < to => {
                if st.last().map_or(false, |p| p.allows_marks()) {
                    let new = match &memo {
                        Some((a, b)) if a == m => b.clone(),
                        _ => Rc::new(f(m)),
                    };
                    memo = Some((m.clone(), new.clone()));
                    res[i] = Tok::U(*u, new);
                }
            }
            _ => {}
        }
    }
    Outcome {
        verdict: Verdict::Accept,
        result: Some(res),
        conforming: true,
    }
}

/// Deepest nesting in a document.
pub fn max_depth(toks: &[Tok]) -> usize {
    let (mut d, mut m) = (0usize, 0);
    for t in toks {
        match t {
            Tok::Open(_) => {
                d += 1;
                m = m.max(d);
            }
            Tok::Close => d = d.saturating_sub(1),
            _ => {}
        }
    }
    m
}

/// Position mapping of an applied step: (start, old size, new size), in old coordinates.
pub fn step_map(step: &MStep) -> Vec<(usize, usize, usize)> {
    match step {
        MStep::Replace {
            from, to, slice, ..
        } => vec![(*from, to.saturating_sub(*from), slice.size())],
        MStep::Around {
            from,
            to,
            gf,
            gt,
            slice,
            insert,
            ..
        } => vec![
            (*from, gf.saturating_sub(*from), *insert),
            (*gt, to.saturating_sub(*gt), slice.size().saturating_sub(*insert)),
        ],
        _ => vec![],
    }
}

/// Map a position forward; returns (position, deleted).
pub fn map_pos(map: &[(usize, usize, usize)], pos: usize, assoc: i32) -> (usize, bool) {
    let mut diff: i64 = 0;
    for &(start, old, new) in map {
        if start > pos {
            break;
        }
        let end = start + old;
        if pos <= end {
            let side = if old == 0 {
                assoc
            } else if pos == start {
                -1
            } else if pos == end {
                1
            } else {
                assoc
            };
            let r = start as i64 + diff + if side < 0 { 0 } else { new as i64 };
            let deleted = if assoc < 0 { pos != start } else { pos != end };
            return (r.max(0) as usize, old != 0 && deleted);
        }
        diff += new as i64 - old as i64;
    }
    ((pos as i64 + diff).max(0) as usize, false)
}

/// Map a step over another one; None when what it changed is gone.
pub fn rebase(step: &MStep, map: &[(usize, usize, usize)]) -> Option<MStep> {
    let mut s = step.clone();
    match &mut s {
        MStep::Replace { from, to, .. } => {
            let (f, fd) = map_pos(map, *from, 1);
            let (t, td) = map_pos(map, *to, -1);
            if fd && td {
                return None;
            }
            *from = f;
            *to = t.max(f);
        }
        MStep::Around {
            from, to, gf, gt, ..
        } => {
            let (f, fd) = map_pos(map, *from, 1);
            let (t, td) = map_pos(map, *to, -1);
            let (a, _) = map_pos(map, *gf, -1);
            let (b, _) = map_pos(map, *gt, 1);
            if (fd && td) || a < f || b > t || a > b {
                return None;
            }
            *from = f;
            *to = t;
            *gf = a;
            *gt = b;
        }
        MStep::AddMark { from, to, .. } | MStep::RemoveMark { from, to, .. } => {
            let (f, fd) = map_pos(map, *from, 1);
            let (t, td) = map_pos(map, *to, -1);
            if (fd && td) || f >= t {
                return None;
            }
            *from = f;
            *to = t;
        }
    }
    Some(s)
}
