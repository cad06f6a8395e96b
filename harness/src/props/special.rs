//! Universal and inconsistent locations.
use crate::model::*;
use crate::region::{Tree, QUOTIENT};
use crate::systems::*;
use pbt::{Case, Res, Spec};

use super::composite::{gen_sides, judge, judge_whole};
use super::verdicts::ASSUME;

/// Turns some locations into special ones. They have no edges and no invariant.
pub fn specials(c: &mut Case, m: &mut Comp, inconsistent: bool) -> bool {
    let mut some = false;
    m.stars = c.chance(1, 2);
    for l in 1..m.locs.len() {
        if !c.chance(1, 2) {
            continue;
        }
        some = true;
        m.locs[l].kind = if inconsistent && c.chance(1, 2) { LocKind::Inconsistent } else { LocKind::Universal };
        m.locs[l].inv.clear();
        // edges that stay would change the actions; they start elsewhere instead
        if c.chance(1, 2) {
            m.edges.retain(|e| e.src != l);
        } else {
            let o = c.idx(l);
            let free = m.locs[o].kind != LocKind::Universal && m.locs[o].kind != LocKind::Inconsistent;
            let taken: Vec<String> = m.edges.iter().filter(|e| e.src == o).map(|e| e.action.clone()).collect();
            for e in m.edges.iter_mut().filter(|e| e.src == l) {
                if free && !taken.contains(&e.action) {
                    e.src = o;
                }
            }
            m.edges.retain(|e| e.src != l);
        }
    }
    some
}

/// In any of the components.
pub fn all_specials(c: &mut Case, s: &mut Sys) -> bool {
    let inc = !s.tree.has_conjunction();
    let mut some = false;
    for m in s.comps.iter_mut().filter(|m| m.name != QUOTIENT) {
        some |= specials(c, m, inc);
    }
    some
}

fn refinement(c: &mut Case) -> Res {
    let quotients = c.chance(1, 4);
    let (mut s, mut t) = if quotients { super::quotsim::gen_sides(c, true) } else { gen_sides(c) };
    let mut some = false;
    for side in [&mut s, &mut t] {
        let inc = !side.tree.has_conjunction();
        for m in &mut side.comps {
            if m.name != QUOTIENT && c.chance(3, 4) {
                some |= specials(c, m, inc);
            }
        }
    }
    // a side that is a variation of the other may keep its special locations
    if !quotients && matches!((&s.tree, &t.tree), (Tree::Leaf(_), Tree::Leaf(_))) && c.chance(1, 2) {
        t.comps[0] = mutate(c, &s.comps[0], &t.comps[0].name.clone(), 3);
        for l in 0..t.comps[0].locs.len() {
            if matches!(t.comps[0].locs[l].kind, LocKind::Universal | LocKind::Inconsistent) {
                t.comps[0].locs[l].inv.clear();
                t.comps[0].edges.retain(|e| e.src != l);
            }
        }
    }
    if !some {
        return c.discard();
    }
    if quotients {
        c.class("quotients");
    }
    judge(c, &s, &t)
}

fn whole(c: &mut Case) -> Res {
    let sh = Shape {
        max_leaves: if c.chance(1, 2) { 1 } else { 3 },
        clocks: 1 + c.idx(2),
        max_const: *c.pick(&[2, 3]),
        locs: *c.pick(&[2, 3, 4]),
        conjunctions: true,
        inv_pct: 50,
        any_inv: false,
    };
    let mut s = if c.chance(1, 4) { super::quotsim::gen(c) } else { gen_sys(c, &sh, &["i"], &["a", "b"], "") };
    let some = all_specials(c, &mut s);
    if !some {
        return c.discard();
    }
    judge_whole(c, &s)
}

pub fn specs() -> Vec<Spec> {
    vec![
        Spec {
            id: "U01",
            prop: refinement,
            quick: 20_000,
            thorough: 600_000,
            rule: "a refinement as in R02, with some locations of the components universal or (outside conjunctions) inconsistent; non-trivial: as in R02",
            assumptions: ASSUME,
            fixed: &[],
            floors: &[("refines", 2.0), ("does not refine", 3.0), ("precondition fails", 5.0)],
            threads: 8,
        },
        Spec {
            id: "U02",
            prop: whole,
            quick: 20_000,
            thorough: 600_000,
            rule: "a consistency or determinism query as in K02, with some locations universal or (outside conjunctions) inconsistent; non-trivial: more than one component",
            assumptions: ASSUME,
            fixed: &[],
            floors: &[("consistent", 10.0), ("inconsistent", 3.0), ("determinism", 10.0)],
            threads: 8,
        },
        Spec {
            id: "U03",
            prop: super::reach::special_verdict,
            quick: 12_000,
            thorough: 400_000,
            rule: "a reachability query as in P01, with some locations universal or (outside conjunctions) inconsistent; non-trivial: as in P01",
            assumptions: ASSUME,
            fixed: &[],
            floors: &[("reachable", 10.0), ("unreachable", 5.0)],
            threads: 8,
        },
    ]
}
