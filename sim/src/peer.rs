//! A party that runs another implementation: it knows the ProseMirror JSON format (the rules of
//! fromJSON in prosemirror-model and prosemirror-transform with the markdown schema's defaults) and the
//! reference model, and shares no code with the library.

use crate::bridge::*;
use crate::gen;
use crate::json::Dialect;
use crate::model::*;
use crate::rng::Rng;
use crate::world::{cut, decode_step, encode, raw_apply, show, show_outcome, show_step, World};
use prosemirror::markdown::{MarkdownMark, MarkdownNode, MD};
use prosemirror::model::Slice;
use serde_json::Value;
use std::rc::Rc;

const PROP: &str = "C19";
type R<T> = Result<T, String>;

fn obj<'a>(v: &'a Value, what: &str) -> R<&'a serde_json::Map<String, Value>> {
    v.as_object().ok_or(format!("invalid input for {}", what))
}

fn uint(v: Option<&Value>, what: &str) -> R<usize> {
    match v {
        Some(Value::Number(n)) => n.as_u64().map(|n| n as usize).ok_or(format!("{} is {}", what, n)),
        other => Err(format!("{} is {:?}", what, other)),
    }
}

/// An attribute; `default` None means that it must be there.
fn attr<'a>(attrs: Option<&'a Value>, name: &str, default: Option<&'a Value>) -> R<&'a Value> {
    match attrs.and_then(|a| a.get(name)).or(default) {
        Some(v) => Ok(v),
        None => Err(format!("no value supplied for attribute {}", name)),
    }
}

fn string(v: &Value, null: bool) -> R<String> {
    match v {
        Value::String(s) => Ok(s.clone()),
        Value::Null if null => Ok(String::new()),
        other => Err(format!("{} where a text belongs", other)),
    }
}

fn flag(v: &Value) -> R<bool> {
    v.as_bool().ok_or(format!("{} where true or false belongs", v))
}

fn some_attrs(o: &serde_json::Map<String, Value>) -> R<Option<&Value>> {
    match o.get("attrs") {
        None | Some(Value::Null) => Ok(None),
        Some(v @ Value::Object(_)) => Ok(Some(v)),
        Some(v) => Err(format!("attrs are {}", v)),
    }
}

pub fn read_mark(v: &Value) -> R<Mark> {
    let o = obj(v, "Mark.fromJSON")?;
    let a = some_attrs(o)?;
    let null = Value::Null;
    match o.get("type").and_then(|t| t.as_str()) {
        Some("strong") => Ok(Mark::Strong),
        Some("em") => Ok(Mark::Em),
        Some("code") => Ok(Mark::Code),
        Some("link") => Ok(Mark::Link {
            href: string(attr(a, "href", None)?, false)?,
            title: string(attr(a, "title", Some(&null))?, true)?,
        }),
        t => Err(format!("there is no mark type {:?} in this schema", t)),
    }
}

pub fn read_nodes(v: Option<&Value>) -> R<Vec<MNode>> {
    match v {
        None | Some(Value::Null) => Ok(vec![]),
        Some(Value::Array(a)) => a.iter().map(read_node).collect(),
        Some(v) => Err(format!("invalid input for Fragment.fromJSON: {}", v)),
    }
}

pub fn read_node(v: &Value) -> R<MNode> {
    let o = obj(v, "Node.fromJSON")?;
    let mut marks = match o.get("marks") {
        None | Some(Value::Null) => vec![],
        Some(Value::Array(a)) => a.iter().map(read_mark).collect::<R<Vec<_>>>()?,
        Some(v) => return Err(format!("invalid mark data: {}", v)),
    };
    marks.sort_by_key(|m| m.rank());
    let a = some_attrs(o)?;
    let (null, no, one, empty) = (
        Value::Null,
        Value::Bool(false),
        Value::from(1),
        Value::String(String::new()),
    );
    let kind = match o.get("type").and_then(|t| t.as_str()) {
        Some("text") => {
            let t = match o.get("text") {
                Some(Value::String(t)) => t,
                other => return Err(format!("invalid text node: {:?}", other)),
            };
            if t.is_empty() {
                return Err("empty text nodes are not allowed".into());
            }
            return Ok(MNode::text(t, marks));
        }
        Some("doc") => Kind::Doc,
        Some("paragraph") => Kind::Para,
        Some("blockquote") => Kind::Quote,
        Some("horizontal_rule") => Kind::Rule,
        Some("heading") => {
            let l = uint(Some(attr(a, "level", Some(&one))?), "level")?;
            if l > 255 {
                return Err(format!("level {}", l));
            }
            Kind::Heading(l as u8)
        }
        Some("code_block") => Kind::Code(string(attr(a, "params", Some(&empty))?, false)?),
        Some("ordered_list") => Kind::Ordered(
            uint(Some(attr(a, "order", Some(&one))?), "order")?,
            flag(attr(a, "tight", Some(&no))?)?,
        ),
        Some("bullet_list") => Kind::Bullet(flag(attr(a, "tight", Some(&no))?)?),
        Some("list_item") => Kind::Item,
        Some("image") => Kind::Image {
            src: string(attr(a, "src", None)?, false)?,
            alt: string(attr(a, "alt", Some(&null))?, true)?,
            title: string(attr(a, "title", Some(&null))?, true)?,
        },
        Some("hard_break") => Kind::Break,
        t => return Err(format!("unknown node type: {:?}", t)),
    };
    let mut n = MNode::new(kind, read_nodes(o.get("content"))?);
    n.marks = marks;
    Ok(n)
}

pub fn read_slice(v: Option<&Value>) -> R<MSlice> {
    let o = match v {
        None | Some(Value::Null) => return Ok(MSlice::default()),
        Some(v) => obj(v, "Slice.fromJSON")?,
    };
    let open = |k: &str| match o.get(k) {
        None | Some(Value::Null) => Ok(0),
        v => uint(v, k),
    };
    Ok(MSlice {
        content: read_nodes(o.get("content"))?,
        os: open("openStart")?,
        oe: open("openEnd")?,
    })
}

pub fn read_step(v: &Value) -> R<MStep> {
    let o = obj(v, "Step.fromJSON")?;
    let (from, to) = (uint(o.get("from"), "from")?, uint(o.get("to"), "to")?);
    let structure = match o.get("structure") {
        None | Some(Value::Null) => false,
        Some(v) => flag(v)?,
    };
    let mark = || read_mark(o.get("mark").unwrap_or(&Value::Null));
    match o.get("stepType").and_then(|t| t.as_str()) {
        Some("replace") => Ok(MStep::Replace {
            from,
            to,
            slice: read_slice(o.get("slice"))?,
            structure,
        }),
        Some("replaceAround") => Ok(MStep::Around {
            from,
            to,
            gf: uint(o.get("gapFrom"), "gapFrom")?,
            gt: uint(o.get("gapTo"), "gapTo")?,
            slice: read_slice(o.get("slice"))?,
            insert: uint(o.get("insert"), "insert")?,
            structure,
        }),
        Some("addMark") => Ok(MStep::AddMark { from, to, mark: mark()? }),
        Some("removeMark") => Ok(MStep::RemoveMark { from, to, mark: mark()? }),
        t => Err(format!("no step type {:?} defined", t)),
    }
}

fn parsed<T, F: Fn(&Value) -> R<T>>(bytes: &[u8], read: F) -> R<T> {
    let v: Value = serde_json::from_slice(bytes).map_err(|e| e.to_string())?;
    read(&v)
}

fn told(bytes: &[u8]) -> String {
    cut(&String::from_utf8_lossy(bytes), 1500)
}

fn type_of(v: &Value) -> Option<&str> {
    v.get("type").and_then(|t| t.as_str())
}

fn mark_types(v: &Value) -> Option<Vec<&str>> {
    match v.get("marks") {
        None => Some(vec![]),
        Some(Value::Array(a)) => a.iter().map(type_of).collect(),
        _ => None,
    }
}

/// Where the node that was decoded has another type or other children than the value says.
fn unlike(v: &Value, n: &MNode) -> Option<String> {
    // (a number is taken for the so many-th type, which is no name to be judged by)
    if type_of(v).map_or(false, |t| t != ty_name(n.kind.ty())) {
        return Some(format!("{:?} for {}", n.kind, cut(&v.to_string(), 200)));
    }
    if n.kind == Kind::Text {
        let mut b: Vec<_> = n.marks.iter().map(mark_name).collect();
        let mut a = mark_types(v).unwrap_or_else(|| b.clone());
        a.sort_unstable();
        a.dedup();
        b.sort_unstable();
        b.dedup();
        if v.get("text").and_then(|t| t.as_str()) != Some(&n.text) || a != b {
            return Some(format!("{:?} {:?} for {}", n.text, b, cut(&v.to_string(), 200)));
        }
        return None;
    }
    if let (Some(Value::Array(a)), false) = (v.get("content"), n.kind.ty().is_leaf()) {
        if a.len() != n.kids.len() {
            return Some(format!("{} of {} children in {}", n.kids.len(), a.len(), cut(&v.to_string(), 200)));
        }
        return a.iter().zip(&n.kids).find_map(|(v, n)| unlike(v, n));
    }
    None
}

fn ty_name(t: Ty) -> &'static str {
    match t {
        Ty::Doc => "doc",
        Ty::Heading => "heading",
        Ty::Code => "code_block",
        Ty::Quote => "blockquote",
        Ty::Para => "paragraph",
        Ty::Bullet => "bullet_list",
        Ty::Ordered => "ordered_list",
        Ty::Item => "list_item",
        Ty::Rule => "horizontal_rule",
        Ty::Break => "hard_break",
        Ty::Image => "image",
        Ty::Text => "text",
    }
}

fn mark_name(m: &Mark) -> &'static str {
    match m {
        Mark::Strong => "strong",
        Mark::Em => "em",
        Mark::Code => "code",
        Mark::Link { .. } => "link",
    }
}

fn repeats(n: &MNode) -> bool {
    let mut t: Vec<_> = n.marks.iter().map(mark_name).collect();
    t.sort_unstable();
    t.windows(2).any(|w| w[0] == w[1]) || n.kids.iter().any(repeats)
}

fn bare(n: &MNode) -> MNode {
    let mut n = n.clone();
    if n.kind != Kind::Text {
        n.marks = vec![];
    }
    if n.kind.ty().is_leaf() {
        n.kids = vec![];
    }
    n.kids = n.kids.iter().map(bare).collect();
    n
}

/// Where damaged bytes that decoded all the same became something else than they say.
pub fn node_otherwise(bytes: &[u8], got: &MNode) -> Option<String> {
    let v: Value = serde_json::from_slice(bytes).ok()?;
    if let Some(d) = unlike(&v, got) {
        return Some(d);
    }
    match read_node(&v) {
        Ok(n) if !repeats(&n) && bare(&n) != bare(got) => Some(format!("{:?}\n instead of {:?}", got, n)),
        _ => None,
    }
}

/// The same for a step.
pub fn step_otherwise(bytes: &[u8], got: &MStep) -> Option<String> {
    fn plain(m: &MStep) -> Option<MStep> {
        let mut m = m.clone();
        if let MStep::Replace { slice, .. } | MStep::Around { slice, .. } = &mut m {
            if slice.content.iter().any(repeats) {
                return None;
            }
            slice.content = slice.content.iter().map(bare).collect();
        }
        Some(m)
    }
    let v: Value = serde_json::from_slice(bytes).ok()?;
    let want = read_step(&v).ok()?;
    match (plain(&want), plain(got)) {
        (Some(a), Some(b)) if a != b => Some(format!("{}\n instead of {}", show_step(got), show_step(&want))),
        _ => None,
    }
}

/// What the library writes must be read as `want`.
fn reads<T, F>(w: &mut World, who: &str, name: &str, bytes: Result<Vec<u8>, String>, want: &T, read: F) -> bool
where
    T: PartialEq + std::fmt::Debug,
    F: Fn(&Value) -> R<T>,
{
    w.count("peer.read");
    let bytes = match bytes {
        Ok(b) => b,
        Err(e) => {
            w.flag("a value cannot be encoded", &[PROP], format!("{} at {}: {}", name, who, e));
            return false;
        }
    };
    match parsed(&bytes, read) {
        Ok(got) if got == *want => true,
        Ok(got) => {
            let d = cut(&format!("{:?}\n instead of {:?}", got, want), 1500);
            w.flag(
                &format!("another implementation reads another {}", name),
                &[PROP],
                format!("{}\n at {}\n {}", d, who, told(&bytes)),
            );
            false
        }
        Err(e) => {
            w.flag(
                &format!("another implementation cannot read a {}", name),
                &[PROP],
                format!("{}\n at {}\n {}", e, who, told(&bytes)),
            );
            false
        }
    }
}

/// Read values of every kind, and have the library read this implementation's.
pub fn run(w: &mut World, who: &str, doc: &MarkdownNode, toks: &Rc<Toks>, r: &mut Rng) {
    let taste = w.cfg.taste.clone();
    let tree = raw_tree(doc);
    if !reads(w, who, "document", encode(doc), &tree, read_node) {
        return;
    }
    for _ in 0..3 {
        let m = if r.pm(700) {
            gen::edit(r, &taste, toks).1
        } else {
            gen::hostile(r, &taste, toks)
        };
        let s = real_step(&m);
        let m = raw_step(&s);
        let empty = match &m {
            MStep::Replace { slice, .. } | MStep::Around { slice, .. } => has_empty_text(&slice.content),
            _ => false,
        };
        if !empty && !reads(w, who, "step", encode(&s), &m, read_step) {
            return;
        }
        let back = Dialect::seeded(r.next()).step(&m);
        w.count("peer.written");
        let res = decode_step(back.as_bytes());
        match &res {
            Ok(Some(s)) if raw_step(s) == m => {}
            _ => {
                w.flag(
                    "a step of another implementation is read as another one",
                    &[PROP],
                    format!("{:?}\n at {}\n {}", res.map(|s| s.map(|s| show_step(&raw_step(&s)))), who, back),
                );
                return;
            }
        }
    }
    if toks.len() < 5000 {
        let ix = gen::Ix::new(toks);
        let (a, b) = ix.cut_pair(r);
        if let Ok(Ok(s)) = guard(|| doc.slice(a..b, r.coin())) {
            let want = raw_slice(&s);
            if !reads(w, who, "slice", encode::<Slice<MD>>(&s), &want, |v| read_slice(Some(v))) {
                return;
            }
        }
    }
    let m = gen::mark(r, &taste);
    if !reads(w, who, "mark", encode::<MarkdownMark>(&real_mark(&m)), &m, read_mark) {
        return;
    }
    follow(w, r);
}

use prosemirror::model::Node as _;

/// Take over some version and follow the steps accepted since, as the library writes them.
fn follow(w: &mut World, r: &mut Rng) {
    let last = w.history.len() - 1;
    let v0 = r.below(last + 1).max(last.saturating_sub(40));
    let start = match parsed(&w.history[v0].json.clone(), read_node) {
        Ok(n) => n,
        Err(e) => {
            let t = told(&w.history[v0].json);
            w.flag("another implementation cannot take over a document", &[PROP], format!("{}\n {}", e, t));
            return;
        }
    };
    let mut toks = toks_of(&start.kids);
    for v in v0..=last {
        if v > v0 {
            let s = match &w.history[v].step {
                Some((_, s)) => real_step(s),
                None => return,
            };
            let bytes = encode(&s).unwrap_or_default();
            let s = match parsed(&bytes, read_step) {
                Ok(s) => s,
                Err(e) => {
                    w.flag("another implementation cannot read a step", &[PROP], format!("{}\n {}", e, told(&bytes)));
                    return;
                }
            };
            let o = apply(&toks, &s);
            match o.result {
                Some(t) => toks = t,
                None => {
                    w.flag(
                        "another implementation cannot follow",
                        &[PROP],
                        format!("{:?}\n version {} {}\n doc [{}]", o.verdict, v, told(&bytes), show(&toks)),
                    );
                    return;
                }
            }
            w.count("peer.followed");
        }
        if toks != *w.history[v].toks {
            let h = w.history[v].toks.clone();
            w.flag(
                "another implementation holds another document",
                &[PROP],
                format!("at version {} (from {})\n holds [{}]\n not   [{}]", v, v0, show(&toks), show(&h)),
            );
            return;
        }
    }
    // and contribute
    let taste = w.cfg.taste.clone();
    let (_, m) = gen::edit(r, &taste, &toks);
    let o = apply(&toks, &m);
    let doc = w.history[last].real.clone();
    let text = Dialect::seeded(r.next()).step(&m);
    let got = match decode_step(text.as_bytes()) {
        Ok(Some(s)) => raw_apply(&s, &doc),
        other => Err(format!("not read: {:?}", other.map(|s| s.is_some()))),
    };
    let fine = match (&o.verdict, &o.result, &got) {
        (Verdict::Accept, Some(t), Ok(Some(d))) => toks_of(&raw_tree(d).kids) == *t,
        (Verdict::Refuse(_), _, Ok(None)) => true,
        (Verdict::Either, _, Ok(_)) => true,
        _ => false,
    };
    w.count("peer.contributed");
    if !fine {
        w.flag(
            "an edit of another implementation is taken differently",
            &[PROP],
            format!("{:?}, {}\n {}\n doc [{}]", o.verdict, show_outcome(&got), text, show(&toks)),
        );
    }
}
