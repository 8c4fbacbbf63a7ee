//! Documents leave as markdown text and come back: a party publishes the document it holds at some
//! version to a file, the file suffers, and somebody imports what is left of it.

use crate::bridge::*;
use crate::json::Dialect;
use crate::model::*;
use crate::rng::Rng;
use crate::world::{cut as shorten, encode, World};
use prosemirror::markdown::{from_markdown, to_markdown, MarkdownNode};
use std::rc::Rc;

// ---- the documents that markdown can express ----

/// Characters that mean nothing to markdown, wherever they stand.
fn harmless(c: char) -> bool {
    c.is_ascii_alphanumeric() || (c.is_alphabetic() && !c.is_ascii()) || (c as u32) >= 0x1_F000
}

/// Punctuation that means nothing to markdown behind a letter.
const MID: &str = ".,;:'()/?%@^$=+-{}";

fn words(s: &str) -> String {
    let mut letters = false;
    s.chars()
        .map(|c| {
            letters |= harmless(c) && !c.is_ascii_digit();
            if c == ' ' || harmless(c) || (letters && MID.contains(c)) {
                c
            } else {
                letters = true;
                'x'
            }
        })
        .collect()
}

/// What stands in code does not mean anything else.
fn verbatim(s: &str) -> String {
    s.chars()
        .map(|c| if c == '`' || c.is_control() || c == '\u{2028}' { 'x' } else { c })
        .collect()
}

fn solid(s: &str) -> String {
    s.chars()
        .enumerate()
        .map(|(i, c)| if harmless(c) || (i > 0 && "/:.?=-+#%".contains(c)) { c } else { 'x' })
        .collect()
}

fn info(s: &str) -> String {
    let s: String = s
        .chars()
        .map(|c| if harmless(c) || c == ' ' || MID.contains(c) || "#!<>*_[]\"".contains(c) { c } else { 'x' })
        .collect();
    tight_ends(&s, true, true)
}

/// No space at either end.
fn tight_ends(s: &str, left: bool, right: bool) -> String {
    let mut v: Vec<char> = s.chars().collect();
    let n = v.len();
    for (i, on) in [(0, left), (n.wrapping_sub(1), right)] {
        if on && i < n && v[i] == ' ' {
            v[i] = 'x';
        }
    }
    v.into_iter().collect()
}

fn delim(m: &Mark) -> bool {
    matches!(m, Mark::Strong | Mark::Em)
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Side {
    Space,
    Punct,
    Letter,
}

/// Whether the marks of these neighbours can be written with delimiters that are read back the way
/// they were meant: no delimiter both ends and starts something, what starts is left-flanking, what
/// ends is right-flanking.
fn delimits(units: &[MNode]) -> bool {
    let mut open: Vec<Mark> = vec![];
    // what was written last, and whether there are delimiters behind it: (ends, starts)
    let mut last = Side::Space;
    for i in 0..=units.len() {
        let none = vec![];
        let marks: &Vec<Mark> = if i < units.len() { &units[i].marks } else { &none };
        let mut ends = false;
        let mut link_end = false;
        while open.iter().any(|m| !marks.contains(m)) {
            match open.pop().unwrap() {
                Mark::Link { .. } => {
                    if ends {
                        // the delimiters were written first
                        if last == Side::Space {
                            return false;
                        }
                    }
                    link_end = true;
                    last = Side::Punct;
                    ends = false;
                }
                _ => ends = true,
            }
        }
        let nested = open.iter().any(delim);
        let mut starts = false;
        let mut link_start = false;
        for m in marks {
            if *m == Mark::Code || open.contains(m) {
                continue;
            }
            open.push(m.clone());
            if delim(m) {
                if link_start {
                    return false;
                }
                starts = true;
            } else {
                link_start = true;
            }
        }
        let next = if i == units.len() {
            Side::Space
        } else if link_start {
            Side::Punct
        } else {
            let u = &units[i];
            match u.ty() {
                Ty::Text if u.marks.contains(&Mark::Code) => Side::Punct,
                Ty::Text => match u.text.chars().next() {
                    Some(' ') => Side::Space,
                    Some(c) if harmless(c) => Side::Letter,
                    _ => Side::Punct,
                },
                Ty::Break => Side::Space,
                _ => Side::Punct,
            }
        };
        if (ends || link_end) && starts {
            return false;
        }
        if ends && (last == Side::Space || (last == Side::Punct && next == Side::Letter)) {
            return false;
        }
        if starts && (next == Side::Space || (next == Side::Punct && last == Side::Letter)) {
            return false;
        }
        // could as well be an end: the parser looks for its start, and sees fewer starts from then on
        if starts && nested && next == last {
            return false;
        }
        if i < units.len() {
            let u = &units[i];
            last = match u.ty() {
                Ty::Text if u.marks.contains(&Mark::Code) => Side::Punct,
                Ty::Text => match u.text.chars().last() {
                    Some(' ') => Side::Space,
                    Some(c) if harmless(c) => Side::Letter,
                    _ => Side::Punct,
                },
                Ty::Break => Side::Space,
                _ => Side::Punct,
            };
        }
    }
    true
}

const SPECIAL: &str = "#\\_*<>`|[";

fn inline(kids: &[MNode], breaks: bool) -> Vec<MNode> {
    let mut v: Vec<MNode> = vec![];
    for k in kids {
        match &k.kind {
            Kind::Text => {
                let marks: Vec<Mark> = k
                    .marks
                    .iter()
                    .map(|m| match m {
                        Mark::Link { href, title } => Mark::Link {
                            href: if title.is_empty() { solid(href) } else { format!("h{}", solid(href)) },
                            title: words(title),
                        },
                        m => m.clone(),
                    })
                    .collect();
                let mut t = if marks.contains(&Mark::Code) { verbatim(&k.text) } else { words(&k.text) };
                if !marks.is_empty() {
                    t = tight_ends(&t, true, true);
                } else if let Some(c) = k.text.chars().next() {
                    // one special character in front is escaped
                    if SPECIAL.contains(c) {
                        t = format!("{}x{}", c, &t[1..]);
                    }
                }
                if !t.is_empty() {
                    v.push(MNode::text(&t, marks));
                }
            }
            Kind::Image { src, alt, title } => v.push(MNode::new(
                Kind::Image {
                    src: format!("s{}", solid(src)),
                    alt: tight_ends(&words(alt), true, true),
                    title: words(title),
                },
                vec![],
            )),
            Kind::Break if breaks => {
                if matches!(v.last(), Some(l) if l.ty() != Ty::Break) {
                    v.push(k.clone());
                }
            }
            _ => {}
        }
    }
    while matches!(v.last(), Some(l) if l.ty() == Ty::Break) {
        v.pop();
    }
    let n = v.len();
    for i in 0..n {
        if v[i].ty() == Ty::Text && v[i].marks.is_empty() {
            let l = i == 0 || v[i - 1].ty() == Ty::Break;
            let r = i + 1 == n || v[i + 1].ty() == Ty::Break;
            v[i].text = tight_ends(&v[i].text, l, r);
        }
    }
    let mut v = crate::gen::join_text(v);
    if !delimits(&v) {
        // keep what can be kept, where that takes little time
        for i in 0..if v.len() < 100 { v.len() } else { 0 } {
            if !delimits(&v[..=i]) {
                v[i].marks.retain(|m| !delim(m));
                if !delimits(&v[..=i]) {
                    for u in v[..i].iter_mut() {
                        u.marks.retain(|m| !delim(m));
                    }
                }
            }
        }
        if !delimits(&v) {
            for u in v.iter_mut() {
                u.marks.retain(|m| !delim(m));
            }
        }
        v = crate::gen::join_text(v);
    }
    // texts that were joined: only the first character is escaped
    for u in v.iter_mut().filter(|u| !u.marks.contains(&Mark::Code)) {
        let mut n = 0;
        u.text = u
            .text
            .chars()
            .map(|c| {
                n += 1;
                if n > 1 && SPECIAL.contains(c) {
                    'x'
                } else {
                    c
                }
            })
            .collect();
    }
    v
}

fn plain(t: &str) -> MNode {
    MNode::new(Kind::Para, vec![MNode::text(t, vec![])])
}

/// The nearest content that markdown can express.
pub fn expressible(kids: &[MNode]) -> Vec<MNode> {
    let mut v: Vec<MNode> = vec![];
    for k in kids {
        let n = match &k.kind {
            Kind::Para => {
                let i = inline(&k.kids, true);
                if i.is_empty() {
                    plain("x")
                } else {
                    MNode::new(Kind::Para, i)
                }
            }
            Kind::Heading(l) => MNode::new(Kind::Heading((*l).clamp(1, 6)), inline(&k.kids, false)),
            Kind::Code(p) => {
                let t: String = k
                    .kids
                    .iter()
                    .map(|t| t.text.as_str())
                    .collect::<String>()
                    .chars()
                    .map(|c| if c == '\r' || c == '`' || c == '\0' || c == '\t' { 'x' } else { c })
                    .collect();
                let kids = if t.is_empty() { vec![] } else { vec![MNode::text(&t, vec![])] };
                MNode::new(Kind::Code(info(p)), kids)
            }
            Kind::Quote => MNode::new(Kind::Quote, expressible(&k.kids)),
            Kind::Bullet(_) => MNode::new(Kind::Bullet(false), expressible(&k.kids)),
            Kind::Ordered(o, _) => MNode::new(Kind::Ordered(o % 1_000_000_000, false), expressible(&k.kids)),
            Kind::Item => MNode::new(Kind::Item, expressible(&k.kids)),
            Kind::Rule => k.clone(),
            _ => continue,
        };
        if matches!(n.ty(), Ty::Bullet | Ty::Ordered) && matches!(v.last(), Some(l) if l.ty() == n.ty()) {
            v.push(plain("x"));
        }
        v.push(n);
    }
    v
}

// ---- what people and broken disks write ----

const SOUP: [&str; 62] = [
    "# ", "## ", "- ", "* ", "+ ", "1. ", "7) ", "> ", "```", "````", "~~~", "\n", "\n", "\n\n", "  ", "    ", "\t",
    "*", "**", "***", "_", "`", "``", "[", "]", "](u)", "](u \"t\")", "![", "![a](s)", "&amp;", "&#0;", "<b>", "</b>",
    "<!--", "\\", "---", "===", "a", "b", " ", "c d", "é", "😀", "\u{2028}", "\r\n", "\r", "|", "[^1]", "[x]: y\n",
    "  \n", "\\\n", "http://x", "\u{0}", "(", ")", "1000000000. ", "\"", "!",
    "<a@b.org>", "<http://a.b/c>", "&copy;", "<x:y>",
];

fn soup(r: &mut Rng) -> String {
    let most = *r.pick(&[4usize, 12, 40]);
    let n = 1 + r.below(most);
    // few kinds at a time meet more often
    let k = 2 + r.below(12);
    let some: Vec<&str> = (0..k).map(|_| *r.pick::<&str>(&SOUP)).collect();
    (0..n).map(|_| *r.pick::<&str>(&some)).collect()
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Fate {
    Intact,
    LineEnds,
    LastLineEnd,
    Torn,
    Overwritten,
    Doubled,
    LostBlock,
    Flipped,
    Soup,
    Mixed,
}

fn fate(r: &mut Rng, focus: &str) -> Fate {
    const ALL: [Fate; 10] = [
        Fate::Intact,
        Fate::LineEnds,
        Fate::LastLineEnd,
        Fate::Torn,
        Fate::Overwritten,
        Fate::Doubled,
        Fate::LostBlock,
        Fate::Flipped,
        Fate::Soup,
        Fate::Mixed,
    ];
    ALL[r.weighted(&match focus {
        "C14" => [14, 4, 3, 2, 2, 1, 1, 1, 1, 1],
        "C15" => [4, 1, 1, 5, 5, 3, 3, 5, 8, 6],
        _ => [10, 3, 2, 4, 4, 2, 2, 3, 4, 3],
    })]
}

fn lossy(b: &[u8]) -> String {
    String::from_utf8_lossy(b).into_owned()
}

/// What is in the file after it was written over `old`.
fn suffer(r: &mut Rng, new: &str, old: &str, f: Fate) -> String {
    let n = new.as_bytes();
    let at = r.below(n.len() + 1);
    let to = r.range(at, n.len());
    match f {
        Fate::Intact => new.to_string(),
        Fate::LineEnds => new.replace('\n', "\r\n"),
        Fate::LastLineEnd => format!("{}\n", new),
        Fate::Torn => lossy(&n[..at]),
        Fate::Overwritten => {
            let mut b = n[..at].to_vec();
            b.extend_from_slice(old.as_bytes().get(at..).unwrap_or(b""));
            lossy(&b)
        }
        Fate::Doubled => {
            let mut b = n[..to].to_vec();
            b.extend_from_slice(&n[at..]);
            lossy(&b)
        }
        Fate::LostBlock => {
            let mut b = n[..at].to_vec();
            if r.coin() {
                b.resize(to, 0);
            }
            b.extend_from_slice(&n[to..]);
            lossy(&b)
        }
        Fate::Flipped => {
            let mut b = n.to_vec();
            for _ in 0..1 + r.below(4) {
                if !b.is_empty() {
                    let i = r.below(b.len());
                    b[i] = match r.below(4) {
                        0 => b[i] ^ (1 << r.below(8)),
                        1 => *r.pick(b"\n *_`>#-[]()!1.\\"),
                        2 => r.below(256) as u8,
                        _ => b' ',
                    };
                }
            }
            lossy(&b)
        }
        Fate::Soup => soup(r),
        Fate::Mixed => {
            let mut at = at;
            while !new.is_char_boundary(at) {
                at -= 1;
            }
            format!("{}{}{}", &new[..at], soup(r), &new[at..])
        }
    }
}

// ---- publishing and importing ----

/// Where a process that may be brought down writes how far it has come.
pub static PHASES: std::sync::Mutex<Option<std::fs::File>> = std::sync::Mutex::new(None);

pub fn phase(s: &str) {
    use std::io::Write;
    if let Some(f) = PHASES.lock().unwrap().as_mut() {
        let _ = writeln!(f, "#{}", s);
    }
}

/// Returns what was imported, if it is fit for use.
pub fn run(w: &mut World, who: &str, doc: &MarkdownNode, toks: &Rc<Toks>, seed: u64) -> Option<MarkdownNode> {
    let mut r = Rng::new(seed);
    let as_is = r.pm(150);
    let want = if as_is { trees_of(toks) } else { expressible(&trees_of(toks)) };
    let src = if as_is {
        doc.clone()
    } else {
        real_node(&MNode::new(Kind::Doc, want.clone()))
    };
    let ctx = |d: String, text: &str| {
        format!(
            "{}\n document {}\n text {:?}\n published by {}",
            d,
            Dialect::canonical().nodes(&want),
            shorten(text, 2000),
            who
        )
    };
    w.count("markdown.exported");
    phase("exporting");
    let text = match guard(|| to_markdown(&src)) {
        Ok(Ok(t)) => t,
        Ok(Err(e)) => {
            w.flag("a document cannot be exported", &["C14"], ctx(format!("{}", e), ""));
            return None;
        }
        Err(p) => {
            w.flag("panic while exporting", &["C14"], ctx(p, ""));
            return None;
        }
    };
    // the text is a matter of the document's value, not of how it came about
    if r.pm(if w.focus == "C14" { 300 } else { 50 }) {
        phase("exporting an equal document");
        let twin = if r.pm(300) {
            Some(src.clone())
        } else if r.pm(500) {
            Some(real_node(&MNode::new(Kind::Doc, want.clone())))
        } else {
            let json = encode(&src).unwrap_or_default();
            guard(|| serde_json::from_slice::<MarkdownNode>(&json).ok()).ok().flatten()
        };
        if let Some(twin) = twin {
            w.count("markdown.exported again");
            match guard(|| to_markdown(&twin).ok()) {
                Ok(Some(t)) if t == text => {}
                Ok(t) => w.flag("equal documents are exported differently", &["C14"], ctx(format!("{:?}", t), &text)),
                Err(p) => w.flag("panic while exporting", &["C14"], ctx(p, &text)),
            }
        }
    }
    let f = fate(&mut r, w.focus);
    let old = std::mem::replace(&mut w.page, text.clone());
    let file = suffer(&mut r, &text, &old, f);
    w.count(match f {
        Fate::Intact => "markdown.intact",
        Fate::LineEnds => "fault.markdown line ends",
        Fate::LastLineEnd => "fault.markdown last line end",
        Fate::Torn => "fault.markdown torn",
        Fate::Overwritten => "fault.markdown half overwritten",
        Fate::Doubled => "fault.markdown block doubled",
        Fate::LostBlock => "fault.markdown block lost",
        Fate::Flipped => "fault.markdown garbled",
        Fate::Soup => "fault.markdown foreign text",
        Fate::Mixed => "fault.markdown foreign insertion",
    });
    let faithful = !as_is && matches!(f, Fate::Intact | Fate::LineEnds | Fate::LastLineEnd);
    w.count("markdown.imported");
    phase(if faithful { "reimporting" } else { "importing" });
    // the parser that both use may panic, then the import below does, too
    let says = guard(|| crate::reader::read(&file));
    let got = match guard(|| from_markdown(&file)) {
        Err(p) if !faithful && crate::known::listed("C15", &p) => {
            w.count("markdown.listed finding");
            return None;
        }
        Err(p) => {
            let tags: &[&str] = if faithful { &["C14", "C15"] } else { &["C15"] };
            w.flag("panic while importing", tags, ctx(format!("{} ({:?})", p, f), &file));
            return None;
        }
        Ok(Err(e)) => {
            w.count("markdown.refused");
            if let Ok(Ok(t)) = &says {
                w.flag(
                    "a text is refused though nothing in it is unsupported",
                    &["C15"],
                    ctx(format!("{} ({:?}), it says {}", e, f, Dialect::canonical().nodes(t)), &file),
                );
            }
            if faithful {
                w.flag(
                    "an exported document cannot be imported",
                    &["C14"],
                    ctx(format!("{} ({:?})", e, f), &file),
                );
            }
            return None;
        }
        Ok(Ok(d)) => d,
    };
    phase("imported");
    // a document like any other
    let mut faults = vec![];
    let t = match guard(|| unguarded(|| read_doc(&got, &mut faults))) {
        Ok(t) => t,
        Err(p) => {
            w.flag("panic while reading an imported document", &["C15"], ctx(p, &file));
            return None;
        }
    };
    for (_, d) in faults {
        w.flag("an imported document is malformed", &["C15"], ctx(d, &file));
        return None;
    }
    let raw = match frag_of(&got) {
        Some(f) => raw_trees(f),
        None => vec![],
    };
    let tags: &[&str] = if faithful && raw != want { &["C14", "C15"] } else { &["C15"] };
    if let Err(e) = check_valid(&t) {
        w.flag("an imported document is not valid", tags, ctx(e, &file));
        return None;
    }
    if !text_normal(&raw) {
        w.flag(
            "an imported document has empty or divided texts",
            tags,
            ctx(Dialect::canonical().nodes(&raw), &file),
        );
        return None;
    }
    match says {
        Ok(Ok(t)) if t != raw => {
            w.flag(
                "an imported document is not what the text says",
                tags,
                ctx(
                    format!(
                        "imported {}, it says {} ({:?})",
                        Dialect::canonical().nodes(&raw),
                        Dialect::canonical().nodes(&t),
                        f
                    ),
                    &file,
                ),
            );
            return None;
        }
        Ok(Ok(_)) => w.count("markdown.says so"),
        Ok(Err(what)) => {
            w.flag(
                "a part of a text is dropped without an error",
                &["C15"],
                ctx(format!("imported {}, though it has {} ({:?})", Dialect::canonical().nodes(&raw), what, f), &file),
            );
            return None;
        }
        Err(_) => {}
    }
    if faithful {
        let same = guard(|| got == src).unwrap_or(false);
        if !same || raw != want {
            w.flag(
                "a document changes on its way through markdown",
                &["C14"],
                ctx(format!("back came {} ({:?})", Dialect::canonical().nodes(&raw), f), &file),
            );
            return None;
        }
        w.count("markdown.came back");
    }
    Some(got)
}
