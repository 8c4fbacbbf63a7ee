//! A JSON writer for the model's values, independent of the library's serde implementations. With a
//! seed it writes in a random dialect: key order, white space, escapes, defaults left out or null.

use crate::model::*;
use crate::rng::Rng;

pub struct Dialect {
    rng: Option<Rng>,
    shuffle: bool,
    space: bool,
    escapes: bool,
    omit: bool,
    nulls: bool,
    mark_order: bool,
}

impl Dialect {
    pub fn canonical() -> Dialect {
        Dialect {
            rng: None,
            shuffle: false,
            space: false,
            escapes: false,
            omit: true,
            nulls: false,
            mark_order: false,
        }
    }
    pub fn seeded(seed: u64) -> Dialect {
        let mut r = Rng::new(seed);
        Dialect {
            shuffle: r.coin(),
            space: r.pm(300),
            escapes: r.pm(400),
            omit: r.coin(),
            nulls: r.coin(),
            mark_order: r.coin(),
            rng: Some(r),
        }
    }
    fn coin(&mut self) -> bool {
        match &mut self.rng {
            Some(r) => r.coin(),
            None => true,
        }
    }
    fn ws(&mut self, out: &mut String) {
        if self.space {
            if let Some(r) = &mut self.rng {
                if r.pm(250) {
                    out.push_str(r.pick(&[" ", "\n", "\t", "  ", "\r\n"]));
                }
            }
        }
    }
    fn string(&mut self, s: &str, out: &mut String) {
        out.push('"');
        for c in s.chars() {
            let esc = self.escapes
                && match &mut self.rng {
                    Some(r) => r.pm(200),
                    None => false,
                };
            if esc {
                let mut b = [0u16; 2];
                for u in c.encode_utf16(&mut b) {
                    out.push_str(&format!("\\u{:04x}", u));
                }
                continue;
            }
            match c {
                '"' => out.push_str("\\\""),
                '\\' => out.push_str("\\\\"),
                '\n' => out.push_str("\\n"),
                '\r' => out.push_str("\\r"),
                '\t' => out.push_str("\\t"),
                '/' if self.escapes => out.push_str("\\/"),
                c if (c as u32) < 0x20 => out.push_str(&format!("\\u{:04X}", c as u32)),
                c => out.push(c),
            }
        }
        out.push('"');
    }

    fn object(&mut self, mut fields: Vec<(&'static str, String)>, out: &mut String) {
        if self.shuffle {
            if let Some(r) = &mut self.rng {
                r.shuffle(&mut fields);
            }
        }
        out.push('{');
        for (i, (k, v)) in fields.iter().enumerate() {
            if i > 0 {
                out.push(',');
            }
            self.ws(out);
            out.push('"');
            out.push_str(k);
            out.push('"');
            self.ws(out);
            out.push(':');
            self.ws(out);
            out.push_str(v);
            self.ws(out);
        }
        out.push('}');
    }

    fn str(&mut self, s: &str) -> String {
        let mut o = String::new();
        self.string(s, &mut o);
        o
    }

    fn opt_str(&mut self, key: &'static str, s: &str, fields: &mut Vec<(&'static str, String)>) {
        if s.is_empty() && self.rng.is_some() {
            if self.nulls && self.coin() {
                fields.push((key, "null".into()));
                return;
            }
            if self.omit && self.coin() {
                return;
            }
        }
        let v = self.str(s);
        fields.push((key, v));
    }

    pub fn mark(&mut self, m: &Mark) -> String {
        let mut o = String::new();
        let f = match m {
            Mark::Strong => vec![("type", "\"strong\"".to_string())],
            Mark::Em => vec![("type", "\"em\"".to_string())],
            Mark::Code => vec![("type", "\"code\"".to_string())],
            Mark::Link { href, title } => {
                let mut a = vec![];
                let h = self.str(href);
                a.push(("href", h));
                self.opt_str("title", title, &mut a);
                let mut ao = String::new();
                self.object(a, &mut ao);
                vec![("type", "\"link\"".to_string()), ("attrs", ao)]
            }
        };
        self.object(f, &mut o);
        o
    }

    pub fn array(&mut self, items: Vec<String>) -> String {
        let mut o = String::from("[");
        for (i, v) in items.iter().enumerate() {
            if i > 0 {
                o.push(',');
            }
            self.ws(&mut o);
            o.push_str(v);
            self.ws(&mut o);
        }
        o.push(']');
        o
    }

    pub fn nodes(&mut self, kids: &[MNode]) -> String {
        let v = kids.iter().map(|k| self.node(k)).collect();
        self.array(v)
    }

    pub fn node(&mut self, n: &MNode) -> String {
        let mut f: Vec<(&'static str, String)> = vec![];
        let ty = match &n.kind {
            Kind::Doc => "doc",
            Kind::Heading(_) => "heading",
            Kind::Code(_) => "code_block",
            Kind::Quote => "blockquote",
            Kind::Para => "paragraph",
            Kind::Bullet(_) => "bullet_list",
            Kind::Ordered(..) => "ordered_list",
            Kind::Item => "list_item",
            Kind::Rule => "horizontal_rule",
            Kind::Break => "hard_break",
            Kind::Image { .. } => "image",
            Kind::Text => "text",
        };
        f.push(("type", format!("\"{}\"", ty)));
        let mut attrs: Vec<(&'static str, String)> = vec![];
        match &n.kind {
            Kind::Heading(l) => attrs.push(("level", l.to_string())),
            Kind::Code(p) => {
                let s = self.str(p);
                attrs.push(("params", s));
            }
            Kind::Bullet(t) => attrs.push(("tight", t.to_string())),
            Kind::Ordered(o, t) => {
                attrs.push(("order", o.to_string()));
                attrs.push(("tight", t.to_string()));
            }
            Kind::Image { src, alt, title } => {
                let s = self.str(src);
                attrs.push(("src", s));
                self.opt_str("alt", alt, &mut attrs);
                self.opt_str("title", title, &mut attrs);
            }
            _ => {}
        }
        if !attrs.is_empty() {
            let mut o = String::new();
            self.object(attrs, &mut o);
            f.push(("attrs", o));
        }
        if n.ty() == Ty::Text {
            let s = self.str(&n.text);
            f.push(("text", s));
            if !n.marks.is_empty() || !(self.omit && self.coin()) {
                let mut ms = n.marks.clone();
                if self.mark_order {
                    if let Some(r) = &mut self.rng {
                        r.shuffle(&mut ms);
                    }
                }
                let v = ms.iter().map(|m| self.mark(m)).collect();
                let v = self.array(v);
                f.push(("marks", v));
            }
        } else if !n.ty().is_leaf() && (!n.kids.is_empty() || !(self.omit && self.coin())) {
            let v = self.nodes(&n.kids);
            f.push(("content", v));
        }
        let mut o = String::new();
        self.object(f, &mut o);
        o
    }

    pub fn doc(&mut self, toks: &[Tok]) -> String {
        let n = MNode::new(Kind::Doc, trees_of(toks));
        self.node(&n)
    }

    pub fn slice(&mut self, s: &MSlice) -> String {
        let mut f = vec![];
        let c = self.nodes(&s.content);
        f.push(("content", c));
        if s.os != 0 || !(self.omit && self.coin()) {
            f.push(("openStart", s.os.to_string()));
        }
        if s.oe != 0 || !(self.omit && self.coin()) {
            f.push(("openEnd", s.oe.to_string()));
        }
        let mut o = String::new();
        self.object(f, &mut o);
        o
    }

    pub fn step(&mut self, s: &MStep) -> String {
        let mut f: Vec<(&'static str, String)> = vec![];
        let (from, to) = s.span();
        match s {
            MStep::Replace {
                slice, structure, ..
            } => {
                f.push(("stepType", "\"replace\"".into()));
                f.push(("from", from.to_string()));
                f.push(("to", to.to_string()));
                self.tail(slice, *structure, &mut f);
            }
            MStep::Around {
                gf,
                gt,
                slice,
                insert,
                structure,
                ..
            } => {
                f.push(("stepType", "\"replaceAround\"".into()));
                f.push(("from", from.to_string()));
                f.push(("to", to.to_string()));
                f.push(("gapFrom", gf.to_string()));
                f.push(("gapTo", gt.to_string()));
                f.push(("insert", insert.to_string()));
                self.tail(slice, *structure, &mut f);
            }
            MStep::AddMark { mark, .. } | MStep::RemoveMark { mark, .. } => {
                f.push((
                    "stepType",
                    if matches!(s, MStep::AddMark { .. }) {
                        "\"addMark\"".into()
                    } else {
                        "\"removeMark\"".into()
                    },
                ));
                let m = self.mark(mark);
                f.push(("mark", m));
                f.push(("from", from.to_string()));
                f.push(("to", to.to_string()));
            }
        }
        let mut o = String::new();
        self.ws(&mut o);
        self.object(f, &mut o);
        self.ws(&mut o);
        o
    }

    fn tail(&mut self, slice: &MSlice, structure: bool, f: &mut Vec<(&'static str, String)>) {
        if *slice != MSlice::default() || !(self.omit && self.coin()) {
            let v = self.slice(slice);
            f.push(("slice", v));
        }
        if structure || !(self.omit && self.coin()) {
            f.push(("structure", structure.to_string()));
        }
    }
}
