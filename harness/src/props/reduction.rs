//! Clock reduction, and clocks that play no role.
use crate::backend::{ask_info, json_info, texts, Answer};
use crate::model::*;
use crate::region::{Tree, QUOTIENT};
use crate::systems::*;
use pbt::{check, fail, Case, Res, Spec};
use reveaal::ProtobufServer::services::query_response::Result as R;

use super::verdicts::{own_overlap, ASSUME};

fn kind(a: &Answer) -> &'static str {
    match a {
        Answer::Yes(_) => "yes",
        Answer::No(R::Model(_)) => "cannot be built",
        Answer::No(_) => "no",
        Answer::Rejected(_) => "rejected",
        Answer::Internal(_) => "internal error",
    }
}

/// Two clocks that are set alike, on most edges; or on the same edges, but to other values.
fn alike(c: &mut Case, m: &mut Comp) {
    let apart = c.chance(1, 3);
    for e in &mut m.edges {
        if apart {
            if e.resets.iter().any(|r| r.0 < 2) || c.chance(1, 3) {
                let v = c.range(0, 2);
                let w = if v > 0 && c.chance(2, 3) { c.range(1, 3) } else { v };
                e.resets.retain(|r| r.0 > 1);
                e.resets.extend([(0, v), (1, w)]);
            }
            continue;
        }
        if !c.chance(1, 8) {
            let v = e.resets.iter().find(|r| r.0 == 0).map(|r| r.1);
            e.resets.retain(|r| r.0 != 1);
            e.resets.extend(v.map(|v| (1, v)));
        }
    }
}

/// Replaces some uses of a clock.
fn replace(c: &mut Case, m: &mut Comp, from: usize, to: usize) {
    let atoms = m.locs.iter_mut().flat_map(|l| &mut l.inv).chain(m.edges.iter_mut().flat_map(|e| e.guard.iter_mut().flatten()));
    for a in atoms {
        if a.clock == from && c.chance(1, 2) {
            a.clock = to;
        }
    }
}

/// Clocks and constraints that change nothing.
fn add_noise(c: &mut Case, m: &Comp, budget: &mut usize) -> Comp {
    let mut m = m.clone();
    // a clock that runs like another one
    if *budget > 0 && !m.clocks.is_empty() && c.chance(1, 2) {
        *budget -= 1;
        let x = c.idx(m.clocks.len());
        let t = m.clocks.len();
        m.clocks.push("twin".into());
        for e in &mut m.edges {
            if let Some(r) = e.resets.iter().find(|r| r.0 == x).cloned() {
                e.resets.push((t, r.1));
            }
        }
        replace(c, &mut m, x, t);
    }
    // a clock that is set, but never read
    if *budget > 0 && c.chance(1, 2) {
        *budget -= 1;
        let t = m.clocks.len();
        m.clocks.push("idle".into());
        for e in &mut m.edges {
            if c.chance(1, 3) {
                let v = c.range(0, 3);
                e.resets.push((t, v));
            }
        }
        // ... or in constraints that always hold
        if c.chance(1, 2) {
            for e in &mut m.edges {
                if c.chance(1, 4) {
                    trivial(c, &mut e.guard, t);
                }
            }
        }
        if c.chance(1, 4) {
            let l = c.idx(m.locs.len());
            m.locs[l].inv.push(Atom { clock: t, rel: Rel::Ge, bound: 0 });
        }
        // ... or where it does not matter
        if c.chance(1, 2) {
            let at = m.locs.len();
            let inv = if c.chance(1, 2) { vec![Atom { clock: t, rel: Rel::Le, bound: 1 }] } else { vec![] };
            m.locs.push(Loc { id: "Ln".into(), kind: LocKind::Normal, inv });
            if let Some(e) = m.edges.first().cloned() {
                m.edges.push(Edge { id: "En".into(), src: at, guard: vec![vec![Atom { clock: t, rel: Rel::Ge, bound: 2 }]], resets: vec![], ..e });
            }
        }
    }
    if !m.clocks.is_empty() && c.chance(1, 4) && !m.edges.is_empty() {
        let (x, e) = (c.idx(m.clocks.len()), c.idx(m.edges.len()));
        trivial(c, &mut m.edges[e].guard, x);
    }
    // another order of declaration
    if m.clocks.len() > 1 && c.chance(1, 2) {
        let mut perm: Vec<usize> = (0..m.clocks.len()).collect();
        c.shuffle(&mut perm);
        let old = m.clocks.clone();
        for (i, p) in perm.iter().enumerate() {
            m.clocks[*p] = old[i].clone();
        }
        let atoms = m.locs.iter_mut().flat_map(|l| &mut l.inv).chain(m.edges.iter_mut().flat_map(|e| e.guard.iter_mut().flatten()));
        atoms.for_each(|a| a.clock = perm[a.clock]);
        m.edges.iter_mut().flat_map(|e| &mut e.resets).for_each(|r| r.0 = perm[r.0]);
    }
    m
}

/// Adds something about clock `x` that changes nothing.
fn trivial(c: &mut Case, g: &mut Vec<Vec<Atom>>, x: usize) {
    let zero = Atom { clock: x, rel: Rel::Ge, bound: 0 };
    match c.below(4) {
        0 if g.is_empty() => {
            *g = vec![vec![Atom { clock: x, rel: Rel::Le, bound: 2 }], vec![Atom { clock: x, rel: Rel::Gt, bound: 1 }]];
        }
        1 if !g.is_empty() => g.push(vec![Atom { clock: x, rel: Rel::Lt, bound: 0 }]),
        _ if g.is_empty() => *g = vec![vec![zero]],
        _ => {
            let k = c.idx(g.len());
            g[k].push(zero);
        }
    }
}

fn noisy(c: &mut Case, s: &Sys, budget: usize) -> Sys {
    let mut budget = budget;
    Sys { comps: s.comps.iter().map(|m| if m.name == QUOTIENT { m.clone() } else { add_noise(c, m, &mut budget) }).collect(), tree: s.tree.clone(), names: s.names.clone() }
}

fn reduction(c: &mut Case) -> Res {
    let kind_of_query = [0, 0, 0, 1, 2, 3, 4, 5, 5, 5, 5, 6, 6][c.idx(13)];
    if kind_of_query == 6 {
        // quotients that fit
        let (mut s, mut t) = super::quotsim::gen_sides(c, true);
        // searches of conjunctions with three clocks take too long
        let conjunctions = s.has_conjunction() || t.has_conjunction();
        for m in s.comps.iter_mut().chain(&mut t.comps) {
            if !conjunctions && m.name != QUOTIENT && m.clocks.len() == 1 && c.chance(1, 3) {
                // a clock that is mostly set with the first
                m.clocks.push("y".into());
                for e in &mut m.edges {
                    if c.chance(1, 8) {
                        e.resets.push((1, c.range(0, 2)));
                    }
                }
                alike(c, m);
                replace(c, m, 0, 1);
            }
        }
        if conjunctions && s.comps.iter().chain(&t.comps).map(|m| m.clocks.len()).sum::<usize>() > 3 {
            return c.discard();
        }
        let query = match c.below(4) {
            0 => format!("consistency: {}", s.text()),
            1 => format!("consistency: {}", t.text()),
            _ => format!("refinement: {} <= {}", s.text(), t.text()),
        };
        return with_and_without(c, s, t, query, if conjunctions { [0, 0] } else { [1, 1] });
    }
    let quotient = (2..=4).contains(&kind_of_query);
    let two_sides = kind_of_query > 1;
    let parts = kind_of_query == 0 && c.chance(2, 3);
    let clocks = if quotient { 1 } else if parts { 2 } else { 1 + c.idx(2) };
    let budget = if quotient { 1 } else { 3 - clocks };
    let sh = Shape {
        max_leaves: if quotient { 2 } else { 3 },
        clocks,
        max_const: *c.pick(&[2, 3]),
        locs: if quotient { 2 } else if parts { 3 } else { *c.pick(&[1, 2, 3]) },
        conjunctions: clocks < 2,
        inv_pct: if parts { 80 } else { 40 },
        any_inv: c.chance(1, 3),
    };
    let ins: &[&str] = if c.chance(1, 2) { &["i"] } else { &["i", "j"] };
    let outs: &[&str] = if c.chance(1, 2) { &["a", "b"] } else { &["a", "b", "o"] };
    let mut s = gen_sys(c, &sh, ins, outs, "S");
    let mut t = if c.chance(1, 3) { gen_sys(c, &sh, ins, outs, "T") } else { super::composite::vary(c, &s, sh.max_const) };
    // the same component on both sides
    if c.chance(1, 5) {
        let k = c.idx(t.comps.len());
        if let Tree::Leaf(_) = s.tree {
            t.comps[k] = s.comps[0].clone();
            t.names[k] = s.names[0].clone();
        }
    }
    if parts && c.chance(2, 3) {
        // an output that never happens
        let k = c.idx(s.comps.len());
        let m = &mut s.comps[k];
        if !m.outputs().is_empty() {
            let a = c.pick(&m.outputs()).clone();
            let at = m.locs.len();
            m.locs.push(Loc { id: "Lu".into(), kind: LocKind::Normal, inv: vec![] });
            m.edges.iter_mut().filter(|e| e.action == a).for_each(|e| e.src = at);
        }
    }
    for m in s.comps.iter_mut().chain(&mut t.comps) {
        if m.clocks.len() > 1 && (parts || c.chance(1, 2)) {
            alike(c, m);
        }
    }
    let (st, tt) = (s.text(), t.text());
    let query = match kind_of_query {
        0 => format!("consistency: {}", st),
        1 => format!("determinism: {}", st),
        2 => format!("refinement: {} <= ({}) // ({})", s.leaf_text(0), tt, st),
        3 => format!("refinement: ({}) // ({}) <= {}", st, s.leaf_text(0), tt),
        4 => format!("consistency: ({}) // ({})", tt, st),
        _ => format!("refinement: {} <= {}", st, tt),
    };
    // searches of conjunctions with three clocks take too long
    let budget = if s.has_conjunction() || t.has_conjunction() { budget.min(1) } else { budget };
    let mut budgets = [budget, budget];
    if two_sides && clocks == 2 {
        budgets[c.idx(2)] = 0;
    }
    with_and_without(c, s, t, query, budgets)
}

fn with_and_without(c: &mut Case, s: Sys, t: Sys, query: String, budgets: [usize; 2]) -> Res {
    c.describe(format!("{}\n{}\n{}", query, s.show(), t.show()));
    let (s2, mut t2) = (noisy(c, &s, budgets[0]), noisy(c, &t, budgets[1]));
    for (i, n) in t.names.iter().enumerate() {
        if let Some(k) = s.names.iter().position(|m| m == n) {
            t2.comps[i] = s2.comps[k].clone();
        }
    }
    c.append(&format!("\nwith more clocks:\n{}\n{}", s2.show(), t2.show()));
    let overlap = [&s, &t, &s2, &t2].iter().any(|x| x.comps.iter().any(own_overlap));
    if overlap && c.chance(4, 5) {
        return c.discard();
    }
    let list = |a: &Sys, b: &Sys| {
        let mut v = a.models().into_iter().cloned().collect::<Vec<Comp>>();
        for m in b.models() {
            if !v.iter().any(|o| o.name == m.name) {
                v.push(m.clone());
            }
        }
        texts(&v.iter().collect::<Vec<_>>())
    };
    let (plain, more) = (list(&s, &t), list(&s2, &t2));
    c.nontrivial(plain != more);
    let first = ask_info(json_info(&plain, 0), &query, false);
    if let Answer::Internal(m) = &first {
        fail!("internal error: {}", m);
    }
    if s.tree.has_quotient() || t.tree.has_quotient() {
        c.class("quotient");
    }
    c.class(&format!("{} {}", query.split(':').next().unwrap(), kind(&first)));
    for (text, reduce, what) in [(&plain, true, "with clock reduction"), (&more, false, "with more clocks"), (&more, true, "with more clocks and clock reduction")] {
        let a = ask_info(json_info(text, 0), &query, reduce);
        // Overlapping edges are looked for in all clock values, also in those that are never
        // reached: with fewer clocks there are fewer of them.
        let same_clocks = std::ptr::eq(text, &plain);
        if overlap && (first.no() || a.no() && !same_clocks) && !matches!(a, Answer::Internal(_) | Answer::Rejected(_)) {
            continue;
        }
        check!(kind(&a) == kind(&first), "{} {}, but {}: {}", query, first.short(), what, a.short());
    }
    Ok(())
}

pub fn specs() -> Vec<Spec> {
    vec![Spec {
        id: "C01",
        prop: reduction,
        quick: 40_000,
        thorough: 600_000,
        rule: "a consistency, determinism or refinement query about systems of up to three components and quotients of them, asked with and without clock reduction, and with clocks and constraints added that change nothing; non-trivial: something was added",
        assumptions: ASSUME,
        fixed: &[],
        floors: &[("refinement yes", 5.0), ("refinement no", 5.0), ("consistency yes", 2.0), ("consistency no", 1.0)],
        threads: 8,
    }]
}
