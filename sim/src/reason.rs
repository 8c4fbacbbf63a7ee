//! What a refusal says must be true.

use crate::model::*;
use crate::probe::node_type;
use prosemirror::markdown::{MarkdownNodeType, MD};
use prosemirror::model::{InsertError, ReplaceError, ResolveErr, SliceError};
use prosemirror::transform::StepError;

/// The content of a node, its type and the positions in the order in which they have to come.
pub struct Place<'a> {
    pub root: Ty,
    pub toks: &'a [Tok],
    pub order: Vec<usize>,
}

impl Place<'_> {
    /// from a position on there is more than the boundaries of nodes
    fn content(&self, from: usize, to: usize) -> bool {
        let start = from <= to && from <= self.toks.len() && is_boundary(self.toks, from);
        start && !(self.ok(from, to) && only_boundaries(&self.toks[from..to]))
    }

    fn ok(&self, from: usize, to: usize) -> bool {
        from <= to && to <= self.toks.len() && is_boundary(self.toks, from) && is_boundary(self.toks, to)
    }
}

fn says(ok: bool, what: &str) -> Result<(), String> {
    if ok {
        Ok(())
    } else {
        Err(format!("it is not true that {}", what))
    }
}

pub fn position(p: &Place, e: &ResolveErr) -> Result<(), String> {
    match *e {
        ResolveErr::RangeError { pos } => {
            let shown = e.to_string().contains(&pos.to_string());
            let known = p.order.contains(&pos);
            let beyond = pos > p.toks.len();
            let behind = p
                .order
                .iter()
                .enumerate()
                .any(|(j, x)| *x == pos && p.order[..j].iter().any(|y| *y > pos));
            says(known && (beyond || behind) && shown, &format!("position {} is out of range", pos))
        }
        ResolveErr::SplitsCharacter { pos } => {
            let shown = e.to_string().contains(&pos.to_string());
            let known = p.order.contains(&pos);
            says(
                known && shown && pos <= p.toks.len() && !is_boundary(p.toks, pos),
                &format!("position {} is in the middle of a character", pos),
            )
        }
        ResolveErr::Index(_) => says(false, "the document has an index out of its bounds"),
    }
}

pub fn range(p: &Place, e: &SliceError) -> Result<(), String> {
    match e {
        SliceError::Resolve(e) => position(p, e),
        SliceError::Unknown => says(false, "nobody knows"),
    }
}

/// Types of the nodes whose own content breaks the schema.
fn broken(root: Ty, kids: &[MNode], out: &mut Vec<Ty>) {
    let tys: Vec<Ty> = kids.iter().map(|k| k.ty()).collect();
    if !root.is_leaf() {
        let marked = kids.iter().any(|k| !k.marks.is_empty());
        if !root.content_ok(&tys) || (marked && !root.allows_marks()) {
            out.push(root);
        }
    }
    for k in kids {
        broken(k.ty(), &k.kids, out);
    }
}

fn ty_at(toks: &[Tok], i: usize) -> Ty {
    match &toks[i] {
        Tok::Open(k) | Tok::Leaf(k) => k.ty(),
        _ => Ty::Text,
    }
}

/// `content`: what is put in place of `from..to`, open as said.
pub fn replace(
    p: &Place,
    from: usize,
    to: usize,
    content: &[Tok],
    os: usize,
    oe: usize,
    e: &ReplaceError<MD>,
) -> Result<(), String> {
    if let ReplaceError::Resolve(e) = e {
        return position(p, e);
    }
    if !p.ok(from, to) {
        return Err("something other than the positions is blamed".into());
    }
    let (af, at) = (ancestors(p.toks, from), ancestors(p.toks, to));
    let level = |a: usize, b: usize| a as i128 - b as i128;
    let even = level(af.len(), os) == level(at.len(), oe);
    let trees = trees_of(content);
    let slice = MSlice { content: trees, os, oe };
    match e {
        ReplaceError::InsertTooDeep => return says(os > af.len(), "the content is deeper than the position"),
        ReplaceError::InconsistentOpenDepths {
            from_depth,
            open_start,
            to_depth,
            open_end,
        } => {
            let told = (*from_depth, *open_start, *to_depth, *open_end);
            let is = (af.len(), os, at.len(), oe);
            return says(
                told == is && !even,
                &format!("the depths are inconsistent, told {:?}, are {:?}", told, is),
            );
        }
        ReplaceError::InvalidOpenDepths => return says(!slice.deep_enough(), "the content is not as deep as it is open"),
        _ => {}
    }
    if os > af.len() || !even || !slice.deep_enough() {
        return Err("something other than the depths is blamed".into());
    }
    let base = af.len() - os;
    match e {
        ReplaceError::CannotJoin(sub, main) => {
            let mut pairs = vec![];
            for k in 0..base {
                pairs.push((ty_at(p.toks, af[k]), ty_at(p.toks, at[k])));
            }
            for k in 0..os {
                pairs.push((ty_at(p.toks, af[base + k]), ty_at(content, k)));
            }
            let ends = ancestors(content, content.len() - oe);
            for k in 0..oe {
                pairs.push((ty_at(content, ends[k]), ty_at(p.toks, at[base + k])));
            }
            let known = pairs
                .iter()
                .any(|(m, s)| node_type(*m) == *main && node_type(*s) == *sub && !m.joins(*s));
            says(known, &format!("a {:?} would have to be joined to a {:?} (to join: {:?})", sub, main, pairs))
        }
        ReplaceError::InvalidContent(t) => {
            let mut res = p.toks[..from].to_vec();
            res.extend_from_slice(&content[os..content.len() - oe]);
            res.extend_from_slice(&p.toks[to..]);
            let mut bad = vec![];
            broken(p.root, &trees_of(&res), &mut bad);
            let bad: Vec<MarkdownNodeType> = bad.into_iter().map(node_type).collect();
            says(bad.contains(t), &format!("the content of a {:?} would be invalid, but of {:?}", t, bad))
        }
        _ => Ok(()),
    }
}

pub fn kind(e: &StepError<MD>) -> &'static str {
    match e {
        StepError::WouldOverwrite => "reason.would overwrite",
        StepError::GapWouldOverwrite => "reason.gap would overwrite",
        StepError::GapNotFlat => "reason.gap not flat",
        StepError::GapNotFit => "reason.gap does not fit",
        StepError::Resolve(_)
        | StepError::Slice(SliceError::Resolve(_))
        | StepError::Replace(ReplaceError::Resolve(_)) => "reason.position",
        StepError::Slice(_) => "reason.range",
        StepError::Insert(InsertError::Index(_)) => "reason.insertion point",
        StepError::Insert(InsertError::Content(_)) => "reason.insertion content",
        StepError::Replace(ReplaceError::InsertTooDeep) => "reason.too deep",
        StepError::Replace(ReplaceError::InconsistentOpenDepths { .. }) => "reason.inconsistent depths",
        StepError::Replace(ReplaceError::InvalidOpenDepths) => "reason.invalid depths",
        StepError::Replace(ReplaceError::CannotJoin(..)) => "reason.cannot join",
        StepError::Replace(ReplaceError::InvalidContent(_)) => "reason.invalid content",
    }
}

/// Whether the reason given for the refusal of a step is true.
pub fn step(doc: &[Tok], s: &MStep, e: &StepError<MD>) -> Result<(), String> {
    let empty = s.slice().map_or(false, |x| has_empty_text(&x.content));
    if empty || check_valid(doc).is_err() {
        return Ok(());
    }
    let mut p = Place {
        root: Ty::Doc,
        toks: doc,
        order: vec![],
    };
    match s {
        MStep::Replace {
            from,
            to,
            slice,
            structure,
        } => {
            p.order = vec![*from, *to];
            match e {
                StepError::Resolve(e) => position(&p, e),
                StepError::WouldOverwrite => says(
                    *structure && p.content(*from, *to),
                    "content would be overwritten against the structure",
                ),
                StepError::Replace(e) => replace(&p, *from, *to, &toks_of(&slice.content), slice.os, slice.oe, e),
                _ => Err("not a reason for a replacement".into()),
            }
        }
        MStep::Around {
            from,
            to,
            gf,
            gt,
            slice,
            insert,
            structure,
        } => {
            p.order = vec![*from, *gf, *gt, *to];
            let toks = toks_of(&slice.content);
            let dist = insert.checked_add(slice.os);
            let inside = dist.filter(|d| *d <= toks.len());
            let chain = inside.map(|d| ancestors(&toks, d));
            let closed = |open: usize| {
                // neither end is open down to this node
                let level = chain.as_ref().map_or(0, |c| c.len());
                let start = ancestors(&toks, slice.os.min(toks.len()));
                let end = ancestors(&toks, toks.len().saturating_sub(slice.oe));
                !((level <= slice.os && start.get(level - 1) == Some(&open))
                    || (level <= slice.oe && end.get(level - 1) == Some(&open)))
            };
            let filled = || {
                let d = inside?;
                let gap = if gf == gt { &[][..] } else { doc.get(*gf..*gt)? };
                let mut v = toks[..d].to_vec();
                v.extend_from_slice(gap);
                v.extend_from_slice(&toks[d..]);
                Some(v)
            };
            match e {
                StepError::Resolve(e) => position(&p, e),
                StepError::Slice(e) => range(&p, e),
                StepError::GapWouldOverwrite => says(
                    *structure && (p.content(*from, *gf) || p.content(*gt, *to)),
                    "content would be overwritten against the structure",
                ),
                StepError::GapNotFlat => says(
                    gf != gt && !(p.ok(*gf, *gt) && ancestors(doc, *gf) == ancestors(doc, *gt)),
                    "the gap is not flat",
                ),
                StepError::Insert(InsertError::Index(e)) => {
                    let d = format!("{:?}", e);
                    let true_ = if d.starts_with("OutOfBounds") {
                        inside.is_none()
                    } else if d.starts_with("SplitsCharacter") {
                        inside.map_or(false, |d| !is_boundary(&toks, d))
                    } else {
                        true
                    };
                    says(true_, &format!("the insertion point is wrong ({})", e))
                }
                // which nodes are open is not clear
                StepError::Insert(InsertError::Content(_)) | StepError::GapNotFit if !slice.deep_enough() => Ok(()),
                StepError::Insert(InsertError::Content(_)) => {
                    let open = match chain.as_ref().and_then(|c| c.last()) {
                        Some(o) if closed(*o) => *o,
                        _ => return says(false, "the node that takes the gap is closed"),
                    };
                    let before = child_types(&toks[..inside.unwrap()], open);
                    let ty = ty_at(&toks, open);
                    says(
                        before.iter().enumerate().any(|(i, k)| !ty.next_ok(i, *k)),
                        "what is in front of the gap cannot be there",
                    )
                }
                StepError::GapNotFit => {
                    let open = match chain.as_ref().and_then(|c| c.last()) {
                        Some(o) if closed(*o) => *o,
                        _ => return says(false, "the node that takes the gap is closed"),
                    };
                    let v = match filled() {
                        Some(v) => v,
                        None => return says(false, "there is a gap"),
                    };
                    let ty = ty_at(&toks, open);
                    let marked = !ty.allows_marks() && gf != gt && top_level_marks(&doc[*gf..*gt]);
                    says(
                        marked || !ty.content_ok(&child_types(&v, open)),
                        "the gap does not fit",
                    )
                }
                StepError::Replace(e) => match filled() {
                    Some(v) => replace(&p, *from, *to, &v, slice.os, slice.oe, e),
                    None => Err("the gap is not blamed".into()),
                },
                _ => Err("not a reason for a replacement around a gap".into()),
            }
        }
        MStep::AddMark { from, to, .. } | MStep::RemoveMark { from, to, .. } => {
            p.order = vec![*from, *to];
            match e {
                StepError::Resolve(e) | StepError::Replace(ReplaceError::Resolve(e)) => position(&p, e),
                StepError::Slice(e) => range(&p, e),
                _ => Err("not a reason for a change of marks".into()),
            }
        }
    }
}
