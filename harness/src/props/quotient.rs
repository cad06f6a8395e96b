//! The quotient: what it has to satisfy, told by compositions.
use crate::backend::{ask, Answer};
use crate::model::*;
use crate::region::{Tree, World};
use crate::systems::*;
use pbt::{check, fail, Case, Res, Spec};
use reveaal::ProtobufServer::services::query_response::Result as R;
use std::collections::BTreeSet;

use super::verdicts::{own_consistency, own_overlap, ASSUME};
const LIMIT: usize = 4000;

fn comp(c: &mut Case, name: &str, ins: &[&str], outs: &[&str], clocks: usize, max: i64, locs: usize) -> Comp {
    let mut p = Params::new(ins, outs);
    p.clocks = clocks;
    p.max_const = max;
    p.locs = locs;
    p.progress = c.chance(1, 2);
    let mut m = gen_comp(c, name, &p);
    if c.chance(4, 5) {
        fill_alphabet(&mut m, &p);
    }
    m
}

fn set(v: &[&str]) -> BTreeSet<String> {
    v.iter().map(|s| s.to_string()).collect()
}

/// S, X, and T or the components T is composed of; the tree and the text of T.
pub fn gen_three(c: &mut Case) -> (Vec<Comp>, Tree, String) {
    let locs = *c.pick(&[1, 2, 2, 3]);
    gen_three_of(c, locs)
}
pub fn gen_three_of(c: &mut Case, locs: usize) -> (Vec<Comp>, Tree, String) {
    let max = *c.pick(&[2, 2, 3]);
    let clocks: Vec<usize> = (0..3).map(|_| c.idx(2)).collect();
    // i: input of all, a: from S to outside and X, b: from X, e: an input of S that only X gives,
    // d: an output of S that T does not know
    let (mut s_in, mut s_out, mut x_in, mut x_out, t_in, mut t_out) =
        (vec![], vec!["a"], vec![], vec![], vec!["i"], vec!["a"]);
    if c.chance(2, 3) {
        s_in.push("i");
    }
    if c.chance(4, 5) {
        x_in.push("i");
    }
    if c.chance(3, 4) {
        x_in.push("a");
    }
    if c.chance(4, 5) {
        x_out.push("b");
        t_out.push("b");
        if c.chance(1, 2) {
            s_in.push("b");
        }
    }
    if c.chance(1, 4) {
        x_out.push("e");
        s_in.push("e");
        if c.chance(1, 2) {
            t_out.push("e");
        }
    }
    if c.chance(1, 5) {
        s_out.push("d");
        if c.chance(1, 2) {
            x_in.push("d");
        }
    }
    let s = comp(c, "S", &s_in, &s_out, clocks[0], max, locs);
    let x = comp(c, "X", &x_in, &x_out, clocks[1], max, locs);
    // T: a component of its own, or made of variations of S and X
    let mut comps = vec![s.clone(), x.clone()];
    let (tree_t, text_t) = if c.chance(1, 2) {
        comps.push(comp(c, "T", &t_in, &t_out, clocks[2], max, locs));
        (Tree::Leaf(2), "T".to_string())
    } else {
        let s2 = if c.chance(1, 2) { mutate(c, &s, "S2", max) } else { renamed(&s, "S2") };
        let x2 = if c.chance(1, 2) { mutate(c, &x, "X2", max) } else { renamed(&x, "X2") };
        comps.push(s2);
        comps.push(x2);
        (Tree::Par(Box::new(Tree::Leaf(2)), Box::new(Tree::Leaf(3))), "(S2 || X2)".to_string())
    };
    (comps, tree_t, text_t)
}

/// X <= T \\ S exactly if S || X <= T.
fn adjoint(c: &mut Case) -> Res {
    let (comps, tree_t, text_t) = gen_three(c);
    let query = format!("refinement: X <= {} // S", text_t);
    let all: Vec<&Comp> = comps.iter().collect();
    c.describe(format!("{}\n{}", query, comps.iter().map(|m| m.show()).collect::<Vec<_>>().join("\n")));
    if comps.iter().any(own_overlap) {
        return c.discard();
    }
    let w = World::new(all.clone());
    let sx = Tree::Par(Box::new(Tree::Leaf(0)), Box::new(Tree::Leaf(1)));
    if !actions_fit(&w, &sx) || !actions_fit(&w, &tree_t) {
        return c.discard();
    }
    let mut consistent = true;
    for m in &comps {
        match own_consistency(m) {
            Some(a) => consistent &= a,
            None => return c.discard(),
        }
    }
    let (ti, to) = (w.inputs(&tree_t), w.outputs(&tree_t));
    let (si, so, xi, xo) = (w.inputs(&Tree::Leaf(0)), w.outputs(&Tree::Leaf(0)), w.inputs(&Tree::Leaf(1)), w.outputs(&Tree::Leaf(1)));
    let a = ask(&all, &query);
    if let Answer::Internal(m) | Answer::Rejected(m) = &a {
        fail!("error: {}", m);
    }
    if !so.is_disjoint(&ti) {
        c.class("cannot be built");
        check!(matches!(a, Answer::No(R::Model(_))), "outputs of S are inputs of T, but: {}", a.short());
        return Ok(());
    }
    if !consistent {
        c.class("inconsistent part");
        check!(a.no(), "a part is inconsistent, but the refinement holds");
        return Ok(());
    }
    check!(!matches!(a, Answer::No(R::Model(_))), "the quotient exists, but: {}", a.short());
    let qi: BTreeSet<String> = ti.union(&so).cloned().collect();
    let qo: BTreeSet<String> = to.difference(&so).chain(si.difference(&ti)).cloned().collect();
    let fits = xi.is_disjoint(&qo) && qi.is_disjoint(&xo) && xi.is_subset(&qi) && qo.is_subset(&xo);
    if !fits {
        c.class("actions do not fit");
        check!(a.no(), "the actions of X do not fit the quotient's, but the refinement holds");
        return Ok(());
    }
    let (ci, co) = (w.inputs(&sx), w.outputs(&sx));
    let fits = ci.is_disjoint(&to) && ti.is_disjoint(&co) && ci.is_subset(&ti) && to.is_subset(&co);
    if !fits {
        c.class("actions of the composition do not fit");
        return c.discard();
    }
    let Some(r) = w.refines(&sx, &tree_t, LIMIT) else { return c.discard() };
    match r {
        Ok(n) => {
            c.class("refines");
            c.nontrivial(n > 3);
            check!(a.yes(), "S || X <= {} holds, but reported {}", text_t, a.short());
        }
        Err(why) => {
            c.class("does not refine");
            c.nontrivial(true);
            check!(!a.yes(), "satisfied, but S || X <= {} does not hold: {}", text_t, why);
        }
    }
    let _ = set(&[]);
    Ok(())
}

fn renamed(m: &Comp, name: &str) -> Comp {
    let mut m = m.clone();
    m.name = name.into();
    m
}

pub fn specs() -> Vec<Spec> {
    vec![Spec {
        id: "R03",
        prop: adjoint,
        quick: 16_000,
        thorough: 480_000,
        rule: "random S, X and T (or T a composition of variations of S and X), asked as X <= T // S and decided as S || X <= T; non-trivial: the actions fit and the reference explores more than three region pairs, or finds a difference",
        assumptions: ASSUME,
        fixed: &[],
        floors: &[("refines", 3.0), ("does not refine", 3.0)],
        threads: 8,
    }]
}
