//! Minimises the trace of a violation: fewer operations, a smaller first document.

use crate::model::{Kind, MNode};
use crate::sched;
use crate::world::*;
use std::time::{Duration, Instant};

pub struct Trace {
    pub cfg: Config,
    pub init: Vec<MNode>,
    pub ops: Vec<Op>,
}

/// `bad` says whether a trace still shows the violation.
pub fn shrink(t: Trace, budget: Duration, bad: &mut dyn FnMut(&Trace) -> bool) -> Trace {
    let end = Instant::now() + budget;
    let mut best = t;
    loop {
        let before = (best.ops.len(), size(&best.init), received(&best.ops));
        best = fewer_ops(best, end, bad);
        best = smaller_init(best, end, bad);
        best = smaller_received(best, end, bad);
        best = plainer(best, end, bad);
        if (best.ops.len(), size(&best.init), received(&best.ops)) == before || Instant::now() > end {
            return best;
        }
    }
}

fn size(v: &[MNode]) -> usize {
    v.iter().map(|n| 1 + n.text.len() + size(&n.kids)).sum()
}

fn fewer_ops(mut best: Trace, end: Instant, bad: &mut dyn FnMut(&Trace) -> bool) -> Trace {
    let mut chunk = (best.ops.len() / 2).max(1);
    loop {
        let mut i = best.ops.len();
        let mut any = false;
        // from the back: what came later depends on what came before
        while i > 0 {
            if Instant::now() > end {
                return best;
            }
            let a = i.saturating_sub(chunk);
            let mut ops = best.ops[..a].to_vec();
            ops.extend_from_slice(&best.ops[i.min(best.ops.len())..]);
            let cand = Trace {
                cfg: best.cfg.clone(),
                init: best.init.clone(),
                ops,
            };
            if !cand.ops.is_empty() && bad(&cand) {
                best = cand;
                any = true;
            }
            i = a;
        }
        if chunk == 1 {
            if !any {
                return best;
            }
        } else {
            chunk /= 2;
        }
    }
}

/// Every way of making one node of the tree smaller.
fn smaller(v: &[MNode]) -> Vec<Vec<MNode>> {
    let mut out = vec![];
    for i in 0..v.len() {
        let mut w = v.to_vec();
        w.remove(i);
        out.push(w);
        let n = v[i].text.chars().count();
        if n > 1 {
            for keep in [0..n / 2, n / 2..n, 0..n - 1, 1..n] {
                let mut w = v.to_vec();
                w[i].text = v[i].text.chars().skip(keep.start).take(keep.len()).collect();
                out.push(w);
            }
        }
        if !v[i].marks.is_empty() {
            let mut w = v.to_vec();
            w[i].marks.clear();
            out.push(w);
        }
        for k in smaller(&v[i].kids) {
            let mut w = v.to_vec();
            w[i].kids = k;
            out.push(w);
        }
    }
    out
}

fn normal(v: &[MNode]) -> bool {
    v.iter().all(|n| (n.kind != Kind::Text || !n.text.is_empty()) && normal(&n.kids))
        && v.windows(2).all(|p| {
            p[0].kind != Kind::Text || p[1].kind != Kind::Text || p[0].marks != p[1].marks
        })
}

fn smaller_init(mut best: Trace, end: Instant, bad: &mut dyn FnMut(&Trace) -> bool) -> Trace {
    'again: loop {
        for init in smaller(&best.init) {
            if Instant::now() > end {
                return best;
            }
            let toks = crate::model::toks_of(&init);
            if !normal(&init) || crate::model::check_valid(&toks).is_err() {
                continue;
            }
            let cand = Trace {
                cfg: best.cfg.clone(),
                init,
                ops: best.ops.clone(),
            };
            if bad(&cand) {
                best = cand;
                continue 'again;
            }
        }
        return best;
    }
}

fn received(ops: &[Op]) -> usize {
    ops.iter()
        .map(|o| match &o.act {
            Act::Malformed { root, steps, .. } => size(std::slice::from_ref(root)) + steps.len(),
            _ => 0,
        })
        .sum()
}

/// Malformed documents with less in them, and fewer steps taken with them.
fn smaller_received(mut best: Trace, end: Instant, bad: &mut dyn FnMut(&Trace) -> bool) -> Trace {
    'again: loop {
        for i in 0..best.ops.len() {
            let mut cands = vec![];
            if let Act::Malformed { root, steps, .. } = &best.ops[i].act {
                for k in 0..steps.len() {
                    let mut s = steps.clone();
                    s.remove(k);
                    cands.push((root.clone(), s));
                }
                if root.kids.len() == 1 {
                    cands.push((root.kids[0].clone(), steps.clone()));
                }
                for kids in smaller(&root.kids) {
                    let mut n = root.clone();
                    n.kids = kids;
                    cands.push((n, steps.clone()));
                }
            }
            for (n, s) in cands {
                if Instant::now() > end {
                    return best;
                }
                let mut ops = best.ops.clone();
                if let Act::Malformed { root, steps, .. } = &mut ops[i].act {
                    *root = n;
                    *steps = s;
                }
                let cand = Trace {
                    cfg: best.cfg.clone(),
                    init: best.init.clone(),
                    ops,
                };
                if bad(&cand) {
                    best = cand;
                    continue 'again;
                }
            }
        }
        return best;
    }
}

fn plainer(mut best: Trace, end: Instant, bad: &mut dyn FnMut(&Trace) -> bool) -> Trace {
    let changes: [fn(&mut Config); 6] = [
        |c| c.followers = 0,
        |c| c.blind = false,
        |c| c.reencode = false,
        |c| c.always_rollback = false,
        |c| c.adopt_hostile = false,
        |c| c.foreign_docs = false,
    ];
    for f in changes {
        if Instant::now() > end {
            break;
        }
        let mut cfg = best.cfg.clone();
        f(&mut cfg);
        let cand = Trace {
            cfg,
            init: best.init.clone(),
            ops: best.ops.clone(),
        };
        if bad(&cand) {
            best = cand;
        }
    }
    best
}

/// The violation of `focus` that a trace shows, if any.
pub fn outcome(t: &Trace, focus: &'static str) -> Option<Violation> {
    sched::replay(&t.cfg, &t.init, &t.ops, focus).hit
}
