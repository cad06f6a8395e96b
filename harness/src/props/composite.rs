//! Verdicts about compositions and conjunctions.
use crate::backend::{ask, ask_info, json_info, texts, Answer};
use crate::model::*;
use crate::region::{Tree, World, QUOTIENT};
use crate::systems::*;
use pbt::{check, fail, Case, Res, Spec};
use reveaal::ProtobufServer::services::query_response::Result as R;

use super::verdicts::{own_consistency, own_overlap, ASSUME};
const LIMIT: usize = 4000;

/// A variation of the system: every component varied, or a part of the tree only.
pub fn vary(c: &mut Case, s: &Sys, max: i64) -> Sys {
    let mut v = Sys { comps: vec![], tree: s.tree.clone(), names: vec![] };
    for (i, m) in s.comps.iter().enumerate() {
        let name = format!("T{}", i);
        let mut m = if c.chance(1, 2) {
            let mut m = m.clone();
            m.name = name.clone();
            m
        } else {
            mutate(c, m, &name, max)
        };
        m.locs[0].inv.retain(|a| matches!(a.rel, Rel::Le | Rel::Lt));
        v.comps.push(m);
        v.names.push((name, None));
    }
    v
}

/// Both sides as one world, the trees over its components.
pub fn shift(t: &Tree, by: usize) -> Tree {
    match t {
        Tree::Leaf(i) => Tree::Leaf(i + by),
        Tree::Par(l, r) => Tree::Par(Box::new(shift(l, by)), Box::new(shift(r, by))),
        Tree::And(l, r) => Tree::And(Box::new(shift(l, by)), Box::new(shift(r, by))),
        Tree::Quot(l, r, q) => Tree::Quot(Box::new(shift(l, by)), Box::new(shift(r, by)), q + by),
    }
}

/// A system counts as consistent if its components are; conjunctions are checked when built.
pub fn consistent(s: &Sys, t: &Tree) -> Option<bool> {
    match t {
        Tree::Leaf(i) => own_consistency(&s.comps[*i]),
        Tree::Par(l, r) | Tree::And(l, r) | Tree::Quot(l, r, _) => {
            let (a, b) = (consistent(s, l)?, consistent(s, r)?);
            Some(a && b)
        }
    }
}

/// The two sides of a refinement.
pub fn gen_sides(c: &mut Case) -> (Sys, Sys) {
    let sh = Shape {
        max_leaves: 3,
        clocks: 1 + c.idx(2),
        max_const: *c.pick(&[2, 2, 3]),
        locs: *c.pick(&[1, 2, 2, 3]),
        conjunctions: true,
        inv_pct: 40,
        any_inv: false,
    };
    let ins: &[&str] = if c.chance(1, 2) { &["i"] } else { &["i", "j"] };
    let outs: &[&str] = if c.chance(1, 2) { &["a", "b"] } else { &["a", "b", "o"] };
    let s = gen_sys(c, &sh, ins, outs, "S");
    let t = match c.below(5) {
        0 => gen_sys(c, &sh, ins, outs, "T"),
        1 => {
            // a part of the left side
            let v = vary(c, &s, sh.max_const);
            let sub = match &v.tree {
                Tree::Par(l, r) | Tree::And(l, r) => {
                    if c.chance(1, 2) {
                        (**l).clone()
                    } else {
                        (**r).clone()
                    }
                }
                x => x.clone(),
            };
            let mut keep = vec![];
            sub.leaves(&mut keep);
            let tree = shift_down(&sub, keep[0]);
            Sys {
                comps: keep.iter().map(|i| v.comps[*i].clone()).collect(),
                names: keep.iter().map(|i| v.names[*i].clone()).collect(),
                tree,
            }
        }
        _ => vary(c, &s, sh.max_const),
    };
    (s, t)
}

fn refinement(c: &mut Case) -> Res {
    let (s, t) = gen_sides(c);
    if s.comps.len() + t.comps.len() == 2 && c.chance(9, 10) {
        return c.discard();
    }
    judge(c, &s, &t)
}

/// The verdict of a refinement against the reference.
pub fn judge(c: &mut Case, s: &Sys, t: &Sys) -> Res {
    let query = format!("refinement: {} <= {}", s.text(), t.text());
    c.describe(format!("{}\n{}\n{}", query, s.show(), t.show()));
    let comps: Vec<&Comp> = s.comps.iter().chain(&t.comps).collect();
    if comps.iter().any(|m| own_overlap(m)) {
        return c.discard();
    }
    let w = World::new(comps.clone());
    let (ls, lt) = (s.tree.clone(), shift(&t.tree, s.comps.len()));
    let (Some(bs), Some(bt)) = (can_be_built(&w, &ls), can_be_built(&w, &lt)) else { return c.discard() };
    let (Some(cs), Some(ct)) = (consistent(s, &s.tree), consistent(t, &t.tree)) else { return c.discard() };
    // the answer must not depend on the reduction of clocks
    let reduce = c.chance(1, 3) && (ls.has_quotient() || lt.has_quotient());
    let a = ask_info(json_info(&texts(&comps), 0), &query, reduce);
    if reduce {
        c.class("with clock reduction");
    }
    if !bs || !bt {
        c.class("cannot be built");
        check!(matches!(a, Answer::No(R::Model(_))), "a side cannot be built, but the answer is {}", a.short());
        return Ok(());
    }
    match &a {
        Answer::Internal(m) => fail!("internal error: {}", m),
        Answer::Rejected(m) => fail!("rejected: {}", m),
        Answer::No(R::Model(m)) => fail!("both sides can be built, but: {:?}", m),
        _ => {}
    }
    let (si, so, ti, to) = (w.inputs(&ls), w.outputs(&ls), w.inputs(&lt), w.outputs(&lt));
    let pre = si.is_disjoint(&to) && ti.is_disjoint(&so) && si.is_subset(&ti) && to.is_subset(&so);
    if !pre || !cs || !ct {
        c.class("precondition fails");
        check!(a.no(), "satisfied although a precondition fails (actions fit: {}, left consistent: {}, right consistent: {})", pre, cs, ct);
        return Ok(());
    }
    let Some(r) = w.refines(&ls, &lt, LIMIT) else { return c.discard() };
    match r {
        Ok(n) => {
            c.class("refines");
            c.nontrivial(n > 3);
            check!(a.yes(), "holds, but reported {}", a.short());
        }
        Err(why) => {
            c.class("does not refine");
            c.nontrivial(true);
            check!(!a.yes(), "reported satisfied, but {}", why);
        }
    }
    Ok(())
}

fn shift_down(t: &Tree, by: usize) -> Tree {
    match t {
        Tree::Leaf(i) => Tree::Leaf(i - by),
        Tree::Par(l, r) => Tree::Par(Box::new(shift_down(l, by)), Box::new(shift_down(r, by))),
        Tree::And(l, r) => Tree::And(Box::new(shift_down(l, by)), Box::new(shift_down(r, by))),
        Tree::Quot(l, r, q) => Tree::Quot(Box::new(shift_down(l, by)), Box::new(shift_down(r, by)), q - by),
    }
}

/// Consistency and determinism queries about whole systems.
fn whole(c: &mut Case) -> Res {
    let sh = Shape {
        max_leaves: 3,
        clocks: 1 + c.idx(2),
        max_const: *c.pick(&[2, 3]),
        locs: *c.pick(&[1, 2, 3]),
        conjunctions: true,
        inv_pct: 50,
        any_inv: false,
    };
    let s = if c.chance(1, 4) { super::quotsim::gen(c) } else { gen_sys(c, &sh, &["i"], &["a", "b"], "") };
    judge_whole(c, &s)
}

pub fn judge_whole(c: &mut Case, s: &Sys) -> Res {
    let determinism = c.chance(1, 3);
    let query = format!("{}: {}", if determinism { "determinism" } else { "consistency" }, s.text());
    c.describe(format!("{}\n{}", query, s.show()));
    let w = World::new(s.refs());
    let Some(built) = can_be_built(&w, &s.tree) else { return c.discard() };
    let overlap = s.comps.iter().any(own_overlap);
    let a = ask(&s.models(), &query);
    if let Answer::Internal(m) | Answer::Rejected(m) = &a {
        fail!("error: {}", m);
    }
    c.nontrivial(s.comps.len() > 1);
    if !built {
        c.class("cannot be built");
        check!(matches!(a, Answer::No(R::Model(_))), "the system cannot be built, but the answer is {}", a.short());
        return Ok(());
    }
    check!(!matches!(a, Answer::No(R::Model(_))), "the system can be built, but: {}", a.short());
    if determinism {
        c.class("determinism");
        for i in (0..s.comps.len()).filter(|i| s.comps[*i].name != QUOTIENT) {
            if let Some(Some(st)) = World::new(vec![&s.comps[i]]).nondeterministic_state(0, LIMIT) {
                check!(!a.yes() || !w.inv_comp(i, &w.initial()), "{} has a choice with clocks {}", s.comps[i].name, st.reg.show());
            }
        }
        check!(overlap || a.yes(), "no component has overlapping edges, but: {}", a.short());
        return Ok(());
    }
    if overlap {
        return c.discard();
    }
    let Some(cs) = consistent(s, &s.tree) else { return c.discard() };
    c.class(if cs { "consistent" } else { "inconsistent" });
    check!(cs == a.yes(), "the parts are {}, but: {}", if cs { "consistent" } else { "not consistent" }, a.short());
    Ok(())
}

pub fn specs() -> Vec<Spec> {
    vec![
        Spec {
            id: "R02",
            prop: refinement,
            quick: 16_000,
            thorough: 480_000,
            rule: "two random systems of up to three components each, the right one mostly a variation or a part of the left one; non-trivial: the precondition holds and the reference explores more than three region pairs, or finds a difference",
            assumptions: ASSUME,
            fixed: &[],
            floors: &[("refines", 3.0), ("does not refine", 3.0), ("precondition fails", 3.0), ("cannot be built", 1.0)],
            threads: 8,
        },
        Spec {
            id: "K02",
            prop: whole,
            quick: 16_000,
            thorough: 480_000,
            rule: "a consistency or determinism query about a random system of up to three components, or one with a quotient; non-trivial: more than one component",
            assumptions: ASSUME,
            fixed: &[],
            floors: &[("consistent", 10.0), ("inconsistent", 2.0), ("cannot be built", 1.0), ("determinism", 10.0)],
            threads: 8,
        },
    ]
}
