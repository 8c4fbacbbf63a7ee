//! Between the library's values and the model's. Reads the library's public data directly and
//! recomputes every size it caches.

use crate::model::*;
use prosemirror::markdown::{
    BulletListAttrs, CodeBlockAttrs, HeadingAttrs, ImageAttrs, LinkAttrs, MarkdownMark,
    MarkdownNode, OrderedListAttrs, MD,
};
use prosemirror::model::{AttrNode, Block, Fragment, Leaf, MarkSet, Node, Slice, Text, TextNode};
use prosemirror::transform::{
    AddMarkStep, RemoveMarkStep, ReplaceAroundStep, ReplaceStep, Span, Step,
};
use std::cell::{Cell, RefCell};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;

thread_local! {
    static IN_LIB: Cell<bool> = const { Cell::new(false) };
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

pub fn install_hook() {
    let default = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        if IN_LIB.with(|c| c.get()) {
            let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
                s.to_string()
            } else if let Some(s) = info.payload().downcast_ref::<String>() {
                s.clone()
            } else {
                "panic".to_string()
            };
            let loc = info
                .location()
                .map(|l| {
                    let f = l.file();
                    let f = match f.split_once("/registry/src/") {
                        // a dependency: from its name on
                        Some((_, f)) => f.split_once('/').map_or(f, |x| x.1),
                        None => f.rsplit("/src/").next().unwrap_or(f),
                    };
                    format!("{}:{}", f, l.line())
                })
                .unwrap_or_default();
            LAST_PANIC.with(|p| *p.borrow_mut() = format!("{} at {}", msg, loc));
        } else {
            default(info);
        }
    }));
}

/// Run library code; a panic in it becomes an Err with its message.
pub fn guard<T, F: FnOnce() -> T>(f: F) -> Result<T, String> {
    // patience is for one call, however much an operation has to check
    crate::drive::PROGRESS.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
    let before = IN_LIB.with(|c| c.replace(true));
    let r = catch_unwind(AssertUnwindSafe(f));
    IN_LIB.with(|c| c.set(before));
    r.map_err(|_| LAST_PANIC.with(|p| p.borrow().clone()))
}

pub fn in_lib() -> bool {
    IN_LIB.with(|c| c.get())
}

/// Harness code called back from inside a guarded library call.
pub fn unguarded<T, F: FnOnce() -> T>(f: F) -> T {
    let before = IN_LIB.with(|c| c.replace(false));
    let r = f();
    IN_LIB.with(|c| c.set(before));
    r
}

pub fn kind_of(n: &MarkdownNode) -> Kind {
    match n {
        MarkdownNode::Doc(_) => Kind::Doc,
        MarkdownNode::Heading(h) => Kind::Heading(h.attrs.level),
        MarkdownNode::CodeBlock(c) => Kind::Code(c.attrs.params.clone()),
        MarkdownNode::Text(_) => Kind::Text,
        MarkdownNode::Blockquote(_) => Kind::Quote,
        MarkdownNode::Paragraph(_) => Kind::Para,
        MarkdownNode::BulletList(b) => Kind::Bullet(b.attrs.tight),
        MarkdownNode::OrderedList(o) => Kind::Ordered(o.attrs.order, o.attrs.tight),
        MarkdownNode::ListItem(_) => Kind::Item,
        MarkdownNode::HorizontalRule => Kind::Rule,
        MarkdownNode::HardBreak => Kind::Break,
        MarkdownNode::Image(i) => Kind::Image {
            src: i.attrs.src.clone(),
            alt: i.attrs.alt.clone(),
            title: i.attrs.title.clone(),
        },
    }
}

pub fn frag_of(n: &MarkdownNode) -> Option<&Fragment<MD>> {
    match n {
        MarkdownNode::Doc(b)
        | MarkdownNode::Blockquote(b)
        | MarkdownNode::Paragraph(b)
        | MarkdownNode::ListItem(b) => Some(&b.content),
        MarkdownNode::Heading(h) => Some(&h.content),
        MarkdownNode::CodeBlock(c) => Some(&c.content),
        MarkdownNode::BulletList(c) => Some(&c.content),
        MarkdownNode::OrderedList(c) => Some(&c.content),
        _ => None,
    }
}

pub fn mark_of(m: &MarkdownMark) -> Mark {
    match m {
        MarkdownMark::Strong => Mark::Strong,
        MarkdownMark::Em => Mark::Em,
        MarkdownMark::Code => Mark::Code,
        MarkdownMark::Link { attrs } => Mark::Link {
            href: attrs.href.clone(),
            title: attrs.title.clone(),
        },
    }
}

pub fn marks_of(m: &MarkSet<MD>) -> Vec<Mark> {
    m.into_iter().map(mark_of).collect()
}

/// Deviations found while reading a real value: (property, what)
pub type Faults = Vec<(&'static str, String)>;

/// Read a fragment into tokens. Returns its true size.
pub fn read_frag(f: &Fragment<MD>, out: &mut Toks, faults: &mut Faults) -> usize {
    let mut size = 0;
    let mut prev: Option<Marks> = None;
    for k in f.children() {
        let s = match k {
            MarkdownNode::Text(t) => {
                let marks = Rc::new(marks_of(&t.marks));
                let mut n = 0;
                for u in t.text.as_str().encode_utf16() {
                    out.push(Tok::U(u, marks.clone()));
                    n += 1;
                }
                if t.text.len_utf16() != n {
                    faults.push((
                        "C10",
                        format!(
                            "text {:?} says its length is {} but has {} units",
                            t.text.as_str(),
                            t.text.len_utf16(),
                            n
                        ),
                    ));
                }
                if n == 0 {
                    faults.push(("C04", "empty text node".into()));
                } else if prev.as_ref() == Some(&marks) {
                    faults.push((
                        "C04",
                        format!("text {:?} not joined with its neighbour", t.text.as_str()),
                    ));
                }
                if marks.windows(2).any(|w| w[0].rank() >= w[1].rank()) {
                    faults.push(("C04", format!("mark set not canonical: {:?}", marks)));
                }
                prev = Some(marks);
                n
            }
            _ => {
                prev = None;
                match frag_of(k) {
                    Some(c) => {
                        out.push(Tok::Open(Rc::new(kind_of(k))));
                        let s = read_frag(c, out, faults);
                        out.push(Tok::Close);
                        s + 2
                    }
                    None => {
                        out.push(Tok::Leaf(Rc::new(kind_of(k))));
                        1
                    }
                }
            }
        };
        let cached = k.node_size();
        if cached != s {
            faults.push((
                "C10",
                format!("{:?} says its size is {} but it is {}", kind_of(k), cached, s),
            ));
        }
        size += s;
    }
    if f.size() != size {
        faults.push((
            "C10",
            format!("a content says its size is {} but it is {}", f.size(), size),
        ));
    }
    if f.child_count() != f.children().len() {
        faults.push(("C10", "child count".into()));
    }
    size
}

/// The content of a document.
pub fn read_doc(n: &MarkdownNode, faults: &mut Faults) -> Toks {
    let mut out = Vec::with_capacity(256);
    match n {
        MarkdownNode::Doc(b) => {
            let s = read_frag(&b.content, &mut out, faults);
            if n.node_size() != s + 2 || n.content_size() != s {
                faults.push(("C10", "size of the document".into()));
            }
        }
        _ => faults.push(("C05", format!("the root became a {:?}", kind_of(n)))),
    }
    out
}

/// A fragment as trees, one model node per real node (nothing is joined).
pub fn raw_trees(f: &Fragment<MD>) -> Vec<MNode> {
    f.children().iter().map(raw_tree).collect()
}

pub fn raw_tree(k: &MarkdownNode) -> MNode {
    match k {
        MarkdownNode::Text(t) => MNode {
            kind: Kind::Text,
            kids: vec![],
            text: t.text.as_str().to_string(),
            marks: marks_of(&t.marks),
        },
        _ => MNode::new(kind_of(k), frag_of(k).map(raw_trees).unwrap_or_default()),
    }
}

pub fn raw_slice(s: &Slice<MD>) -> MSlice {
    MSlice {
        content: raw_trees(&s.content),
        os: s.open_start,
        oe: s.open_end,
    }
}

pub fn raw_step(s: &Step<MD>) -> MStep {
    match s {
        Step::Replace(r) => MStep::Replace {
            from: r.span.from,
            to: r.span.to,
            slice: raw_slice(&r.slice),
            structure: r.structure,
        },
        Step::ReplaceAround(r) => MStep::Around {
            from: r.span.from,
            to: r.span.to,
            gf: r.gap_from,
            gt: r.gap_to,
            slice: raw_slice(&r.slice),
            insert: r.insert,
            structure: r.structure,
        },
        Step::AddMark(r) => MStep::AddMark {
            from: r.span.from,
            to: r.span.to,
            mark: mark_of(&r.mark),
        },
        Step::RemoveMark(r) => MStep::RemoveMark {
            from: r.span.from,
            to: r.span.to,
            mark: mark_of(&r.mark),
        },
    }
}

// ---- building real values through the library's constructors ----

pub fn real_mark(m: &Mark) -> MarkdownMark {
    match m {
        Mark::Strong => MarkdownMark::Strong,
        Mark::Em => MarkdownMark::Em,
        Mark::Code => MarkdownMark::Code,
        Mark::Link { href, title } => MarkdownMark::Link {
            attrs: LinkAttrs {
                href: href.clone(),
                title: title.clone(),
            },
        },
    }
}

pub fn real_node(n: &MNode) -> MarkdownNode {
    let content = || real_frag(&n.kids);
    match &n.kind {
        Kind::Doc => MarkdownNode::Doc(Block { content: content() }),
        Kind::Heading(l) => MarkdownNode::Heading(AttrNode {
            attrs: HeadingAttrs { level: *l },
            content: content(),
        }),
        Kind::Code(p) => MarkdownNode::CodeBlock(AttrNode {
            attrs: CodeBlockAttrs { params: p.clone() },
            content: content(),
        }),
        Kind::Quote => MarkdownNode::Blockquote(Block { content: content() }),
        Kind::Para => MarkdownNode::Paragraph(Block { content: content() }),
        Kind::Bullet(t) => MarkdownNode::BulletList(AttrNode {
            attrs: BulletListAttrs { tight: *t },
            content: content(),
        }),
        Kind::Ordered(o, t) => MarkdownNode::OrderedList(AttrNode {
            attrs: OrderedListAttrs {
                order: *o,
                tight: *t,
            },
            content: content(),
        }),
        Kind::Item => MarkdownNode::ListItem(Block { content: content() }),
        Kind::Rule => MarkdownNode::HorizontalRule,
        Kind::Break => MarkdownNode::HardBreak,
        Kind::Image { src, alt, title } => MarkdownNode::Image(Leaf {
            attrs: ImageAttrs {
                src: src.clone(),
                alt: alt.clone(),
                title: title.clone(),
            },
        }),
        Kind::Text => {
            let mut marks = MarkSet::<MD>::default();
            for m in &n.marks {
                marks.add(&real_mark(m));
            }
            MarkdownNode::Text(TextNode {
                marks,
                text: Text::from(n.text.clone()),
            })
        }
    }
}

pub fn real_frag(kids: &[MNode]) -> Fragment<MD> {
    Fragment::from(kids.iter().map(real_node).collect::<Vec<_>>())
}

pub fn real_slice(s: &MSlice) -> Slice<MD> {
    Slice::new(real_frag(&s.content), s.os, s.oe)
}

pub fn real_step(s: &MStep) -> Step<MD> {
    match s {
        MStep::Replace {
            from,
            to,
            slice,
            structure,
        } => Step::Replace(ReplaceStep {
            span: Span {
                from: *from,
                to: *to,
            },
            slice: real_slice(slice),
            structure: *structure,
        }),
        MStep::Around {
            from,
            to,
            gf,
            gt,
            slice,
            insert,
            structure,
        } => Step::ReplaceAround(ReplaceAroundStep {
            span: Span {
                from: *from,
                to: *to,
            },
            gap_from: *gf,
            gap_to: *gt,
            slice: real_slice(slice),
            insert: *insert,
            structure: *structure,
        }),
        MStep::AddMark { from, to, mark } => Step::AddMark(AddMarkStep {
            span: Span {
                from: *from,
                to: *to,
            },
            mark: real_mark(mark),
        }),
        MStep::RemoveMark { from, to, mark } => Step::RemoveMark(RemoveMarkStep {
            span: Span {
                from: *from,
                to: *to,
            },
            mark: real_mark(mark),
        }),
    }
}

pub fn copy_step(s: &Step<MD>) -> Step<MD> {
    match s {
        Step::Replace(r) => Step::Replace(ReplaceStep {
            span: r.span,
            slice: copy_slice(&r.slice),
            structure: r.structure,
        }),
        Step::ReplaceAround(r) => Step::ReplaceAround(ReplaceAroundStep {
            span: r.span,
            gap_from: r.gap_from,
            gap_to: r.gap_to,
            slice: copy_slice(&r.slice),
            insert: r.insert,
            structure: r.structure,
        }),
        Step::AddMark(r) => Step::AddMark(AddMarkStep {
            span: r.span,
            mark: r.mark.clone(),
        }),
        Step::RemoveMark(r) => Step::RemoveMark(RemoveMarkStep {
            span: r.span,
            mark: r.mark.clone(),
        }),
    }
}

pub fn copy_slice(s: &Slice<MD>) -> Slice<MD> {
    Slice::new(s.content.clone(), s.open_start, s.open_end)
}
