//! Random systems: trees of compositions and conjunctions over small components.
use crate::model::*;
use crate::region::{Reg, St, Tree, World, ABOVE, QUOTIENT};
use pbt::Case;

pub struct Sys {
    pub comps: Vec<Comp>,
    pub tree: Tree,
    /// Per leaf, as written in a query: name and special id.
    pub names: Vec<(String, Option<String>)>,
}

pub struct Shape {
    pub max_leaves: usize,
    /// Clocks in all.
    pub clocks: usize,
    pub max_const: i64,
    pub locs: usize,
    pub conjunctions: bool,
    pub inv_pct: u64,
    pub any_inv: bool,
}

fn leaf(c: &mut Case, s: &mut Sys, sh: &Shape, ins: &[String], outs: &[String], prefix: &str, clocks: &mut usize) -> Tree {
    let k = s.comps.len();
    let name = format!("{}{}", prefix, (b'A' + k as u8) as char);
    let mut p = Params::new(&[], &[]);
    p.inputs = ins.to_vec();
    p.outputs = outs.to_vec();
    p.clocks = if *clocks == 0 { 0 } else { 1 + c.idx((*clocks).min(2)) };
    if c.chance(1, 6) {
        p.clocks = 0;
    }
    *clocks -= p.clocks;
    p.locs = sh.locs;
    p.max_const = sh.max_const;
    p.inv_pct = sh.inv_pct;
    p.any_inv = sh.any_inv;
    p.disjunctions = c.chance(1, 5);
    p.progress = c.chance(1, 2);
    let mut comp = gen_comp(c, &name, &p);
    // a location invariant that is not met at the start is another matter
    comp.locs[0].inv.retain(|a| matches!(a.rel, Rel::Le | Rel::Lt));
    s.comps.push(comp);
    s.names.push((name, None));
    Tree::Leaf(k)
}

fn subset(c: &mut Case, v: &[String]) -> Vec<String> {
    v.iter().filter(|_| c.chance(2, 3)).cloned().collect()
}

fn grow(c: &mut Case, s: &mut Sys, sh: &Shape, leaves: usize, ins: &[String], outs: &[String], prefix: &str, clocks: &mut usize) -> Tree {
    if leaves <= 1 {
        return leaf(c, s, sh, ins, outs, prefix, clocks);
    }
    let nl = 1 + c.idx(leaves - 1);
    if sh.conjunctions && c.chance(1, 3) {
        let l = grow(c, s, sh, nl, ins, outs, prefix, clocks);
        let r = grow(c, s, sh, leaves - nl, ins, outs, prefix, clocks);
        return Tree::And(Box::new(l), Box::new(r));
    }
    let (mut lo, mut ro) = (vec![], vec![]);
    for o in outs {
        if c.chance(1, 2) {
            lo.push(o.clone());
        } else {
            ro.push(o.clone());
        }
    }
    let mut li = subset(c, ins);
    li.extend(subset(c, &ro));
    let mut ri = subset(c, ins);
    ri.extend(subset(c, &lo));
    let l = grow(c, s, sh, nl, &li, &lo, prefix, clocks);
    let r = grow(c, s, sh, leaves - nl, &ri, &ro, prefix, clocks);
    Tree::Par(Box::new(l), Box::new(r))
}

pub fn gen_sys(c: &mut Case, sh: &Shape, ins: &[&str], outs: &[&str], prefix: &str) -> Sys {
    let mut s = Sys { comps: vec![], tree: Tree::Leaf(0), names: vec![] };
    let leaves = 1 + c.idx(sh.max_leaves);
    let mut clocks = sh.clocks;
    let ins: Vec<String> = ins.iter().map(|x| x.to_string()).collect();
    let outs: Vec<String> = outs.iter().map(|x| x.to_string()).collect();
    s.tree = grow(c, &mut s, sh, leaves, &ins, &outs, prefix, &mut clocks);
    s
}

impl Sys {
    pub fn has_conjunction(&self) -> bool {
        self.tree.has_conjunction()
    }
    pub fn refs(&self) -> Vec<&Comp> {
        self.comps.iter().collect()
    }
    /// The component models to send: each name once.
    pub fn models(&self) -> Vec<&Comp> {
        let mut out: Vec<&Comp> = vec![];
        for m in &self.comps {
            if m.name != QUOTIENT && !out.iter().any(|o| o.name == m.name) {
                out.push(m);
            }
        }
        out
    }
    pub fn show(&self) -> String {
        let mut s = self.text();
        for m in self.models() {
            s += "\n";
            s += &m.show();
        }
        s
    }
    pub fn leaf_text(&self, i: usize) -> String {
        match &self.names[i] {
            (n, None) => n.clone(),
            (n, Some(id)) => format!("{}[{}]", n, id),
        }
    }
    pub fn text(&self) -> String {
        self.tree_text(&self.tree, true)
    }
    pub fn tree_text(&self, t: &Tree, top: bool) -> String {
        let s = match t {
            Tree::Leaf(i) => return self.leaf_text(*i),
            Tree::Par(l, r) => format!("{} || {}", self.tree_text(l, false), self.tree_text(r, false)),
            Tree::And(l, r) => format!("{} && {}", self.tree_text(l, false), self.tree_text(r, false)),
            Tree::Quot(l, r, _) => format!("{} // {}", self.tree_text(l, false), self.tree_text(r, false)),
        };
        if top {
            s
        } else {
            format!("({})", s)
        }
    }
}

/// Conjunctions of the tree.
pub fn conjunctions<'t>(t: &'t Tree, out: &mut Vec<&'t Tree>) {
    match t {
        Tree::Leaf(_) => {}
        Tree::Par(l, r) | Tree::Quot(l, r, _) => {
            conjunctions(l, out);
            conjunctions(r, out);
        }
        Tree::And(l, r) => {
            conjunctions(l, out);
            conjunctions(r, out);
            out.push(t);
        }
    }
}

/// No output is shared by the sides of a composition, or an input of the other side of a conjunction.
pub fn actions_fit(w: &World, t: &Tree) -> bool {
    match t {
        Tree::Leaf(_) => true,
        Tree::Par(l, r) => actions_fit(w, l) && actions_fit(w, r) && w.outputs(l).is_disjoint(&w.outputs(r)),
        Tree::And(l, r) => {
            actions_fit(w, l) && actions_fit(w, r) && w.outputs(l).is_disjoint(&w.inputs(r)) && w.inputs(l).is_disjoint(&w.outputs(r))
        }
        Tree::Quot(l, r, _) => actions_fit(w, l) && actions_fit(w, r) && w.outputs(r).is_disjoint(&w.inputs(l)),
    }
}

pub fn quotient_leaves(t: &Tree, out: &mut Vec<usize>) {
    match t {
        Tree::Leaf(_) => {}
        Tree::Par(l, r) | Tree::And(l, r) => {
            quotient_leaves(l, out);
            quotient_leaves(r, out);
        }
        Tree::Quot(_, _, _) => real_leaves(t, out),
    }
}
fn real_leaves(t: &Tree, out: &mut Vec<usize>) {
    match t {
        Tree::Leaf(i) => out.push(*i),
        Tree::Par(l, r) | Tree::And(l, r) | Tree::Quot(l, r, _) => {
            real_leaves(l, out);
            real_leaves(r, out);
        }
    }
}

/// Whether the system can be built: every conjunction in it has to be consistent.
pub fn can_be_built(w: &World, t: &Tree) -> Option<bool> {
    if !actions_fit(w, t) {
        return Some(false);
    }
    let mut all = vec![];
    conjunctions(t, &mut all);
    let mut res = true;
    for x in all {
        res &= w.consistent(x, 300)?;
    }
    // the sides of a quotient have to be deterministic and consistent
    let mut parts = vec![];
    quotient_leaves(t, &mut parts);
    for i in parts {
        let own = World::new(vec![w.comps[i]]);
        if own.overlapping_edges(0) {
            return None;
        }
        res &= own.consistent(&Tree::Leaf(0), 300)?;
    }
    Some(res)
}

/// Every region over all clocks of the world. None if more than `limit`.
pub fn all_regions(max: &[i64], limit: usize) -> Option<Vec<Reg>> {
    let n = max.len();
    let mut out: Vec<Reg> = vec![Reg(vec![])];
    for x in 0..n {
        let mut next = std::collections::BTreeSet::new();
        for r in &out {
            // ranks doubled, so that there is room between them
            let top = r.0.iter().map(|c| c.1).max().unwrap_or(0);
            for i in 0..=max[x] as u8 {
                let mut fractions = vec![0];
                if (i as i64) < max[x] {
                    fractions.extend(1..=2 * top + 1);
                }
                for f in fractions {
                    let mut v: Vec<(u8, u8)> = r.0.iter().map(|c| (c.0, 2 * c.1)).collect();
                    v.push((i, f));
                    next.insert(Reg::normal(v));
                }
            }
            let mut v = r.0.clone();
            v.push((ABOVE, 0));
            next.insert(Reg::normal(v));
        }
        if next.len() > limit {
            return None;
        }
        out = next.into_iter().collect();
    }
    Some(out)
}

/// A point of a region without clocks above their maximum, in units of 1/`k`.
pub fn point(r: &Reg, k: i64) -> Option<Vec<i64>> {
    r.0.iter().map(|(i, f)| if *i == ABOVE { None } else { Some(*i as i64 * k + *f as i64) }).collect()
}

pub fn locs_text(s: &Sys, st: &St) -> String {
    st.locs.iter().enumerate().map(|(i, l)| format!("{}.{}", s.leaf_text(i), s.comps[i].locs[*l as usize].id)).collect::<Vec<_>>().join(" ")
}
