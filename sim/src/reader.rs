//! What a markdown text says: a reference importer, written against the parser's events and the
//! schema. Shares the parser (pulldown-cmark) with the library, and nothing else.

use crate::model::*;
use pulldown_cmark::{CodeBlockKind, Event, Parser, Tag};

struct Open {
    kind: Kind,
    kids: Vec<MNode>,
    /// a paragraph that the events do not mention
    implied: bool,
}

struct Reader {
    open: Vec<Open>,
    marks: Vec<Mark>,
}

type Read<T> = Result<T, &'static str>;

impl Reader {
    fn begin(&mut self, kind: Kind) {
        self.open.push(Open {
            kind,
            kids: vec![],
            implied: false,
        });
    }

    fn put(&mut self, n: MNode) {
        self.open.last_mut().unwrap().kids.push(n);
    }

    fn end(&mut self) {
        let mut o = self.open.pop().unwrap();
        match o.kind {
            Kind::Item if o.kids.first().map(|k| k.ty()) != Some(Ty::Para) => {
                o.kids.insert(0, MNode::new(Kind::Para, vec![]))
            }
            Kind::Quote if o.kids.is_empty() => o.kids.push(MNode::new(Kind::Para, vec![])),
            Kind::Code(_) => {
                let mut t: String = o.kids.iter().map(|k| k.text.as_str()).collect();
                if t.ends_with('\n') {
                    t.pop();
                }
                o.kids = if t.is_empty() { vec![] } else { vec![MNode::text(&t, vec![])] };
            }
            _ => {}
        }
        let kids = crate::gen::join_text(o.kids);
        self.put(MNode::new(o.kind, kids));
    }

    fn top(&self) -> &Kind {
        &self.open.last().unwrap().kind
    }

    /// A block begins or ends here: so does an implied paragraph.
    fn block(&mut self) {
        if self.open.last().unwrap().implied {
            self.end();
        }
    }

    fn inline(&mut self) {
        if *self.top() == Kind::Item {
            self.begin(Kind::Para);
            self.open.last_mut().unwrap().implied = true;
        }
    }

    fn text(&mut self, t: &str, code: bool) {
        if t.is_empty() {
            return;
        }
        self.inline();
        if let Kind::Image { alt, .. } = &mut self.open.last_mut().unwrap().kind {
            alt.push_str(t);
            return;
        }
        let mut m: Vec<Mark> = vec![];
        for x in self.marks.iter().cloned().chain(code.then_some(Mark::Code)) {
            m.retain(|y| y.rank() != x.rank());
            m.push(x);
        }
        m.sort_by_key(|m| m.rank());
        self.put(MNode::text(t, m));
    }

    fn event(&mut self, e: Event) -> Read<()> {
        match e {
            Event::Start(t) => match t {
                Tag::Paragraph => {
                    self.block();
                    self.begin(Kind::Para);
                }
                Tag::Heading(l) => {
                    self.block();
                    self.begin(Kind::Heading(l as u8));
                }
                Tag::BlockQuote => {
                    self.block();
                    self.begin(Kind::Quote);
                }
                Tag::CodeBlock(k) => {
                    self.block();
                    self.begin(Kind::Code(match k {
                        CodeBlockKind::Fenced(i) => i.to_string(),
                        CodeBlockKind::Indented => String::new(),
                    }));
                }
                Tag::List(n) => {
                    self.block();
                    self.begin(match n {
                        Some(n) => Kind::Ordered(n as usize, false),
                        None => Kind::Bullet(false),
                    });
                }
                Tag::Item => self.begin(Kind::Item),
                Tag::Emphasis => self.marks.push(Mark::Em),
                Tag::Strong => self.marks.push(Mark::Strong),
                Tag::Link(_, href, title) => self.marks.push(Mark::Link {
                    href: href.to_string(),
                    title: title.to_string(),
                }),
                Tag::Image(_, src, title) => {
                    self.inline();
                    self.begin(Kind::Image {
                        src: src.to_string(),
                        alt: String::new(),
                        title: title.to_string(),
                    });
                }
                _ => return Err("a tag"),
            },
            Event::End(t) => match t {
                Tag::Emphasis | Tag::Strong | Tag::Link(..) => {
                    self.marks.pop();
                }
                Tag::Image(..) => {
                    let o = self.open.pop().unwrap();
                    match (&mut self.open.last_mut().unwrap().kind, &o.kind) {
                        (Kind::Image { alt, .. }, Kind::Image { alt: a, .. }) => alt.push_str(a),
                        _ => self.put(MNode::new(o.kind, vec![])),
                    }
                }
                _ => {
                    self.block();
                    self.end();
                }
            },
            Event::Text(t) => self.text(&t, false),
            Event::Code(t) => self.text(&t, true),
            Event::Rule => {
                self.block();
                self.put(MNode::new(Kind::Rule, vec![]));
            }
            Event::HardBreak => {
                self.inline();
                match self.top() {
                    Kind::Para => self.put(MNode::new(Kind::Break, vec![])),
                    _ => return Err("a line break"),
                }
            }
            Event::SoftBreak => return Err("a soft line break"),
            Event::Html(_) => return Err("HTML"),
            _ => return Err("an event"),
        }
        Ok(())
    }
}

/// The content of the document that a text describes, or what in it the schema cannot express.
pub fn read(text: &str) -> Result<Vec<MNode>, &'static str> {
    let mut r = Reader {
        open: vec![],
        marks: vec![],
    };
    r.begin(Kind::Doc);
    for e in Parser::new(text) {
        r.event(e)?;
    }
    let mut d = r.open.pop().unwrap().kids;
    if d.is_empty() {
        d.push(MNode::new(Kind::Para, vec![]));
    }
    Ok(d)
}
