//! Quotients anywhere in a system: refinement, simulation, reachability.
use crate::model::*;
use crate::region::{quotient_part, Tree, QUOTIENT};
use crate::systems::*;
use pbt::{Case, Res, Spec};

use super::composite::{judge, vary};
use super::quotient::gen_three_of;
use super::reach::{judge_and_follow, question};
use super::simulate::walk_in;
use super::verdicts::{own_overlap, ASSUME};

struct Parts {
    sys: Sys,
    max: i64,
}

impl Parts {
    fn leaf(&mut self, mut m: Comp) -> Tree {
        // a location invariant that is not met at the start is another matter
        m.locs[0].inv.retain(|a| matches!(a.rel, Rel::Le | Rel::Lt));
        let k = self.sys.comps.len();
        m.name = format!("{}{}", m.name.trim_end_matches(char::is_numeric), k);
        self.sys.names.push((m.name.clone(), None));
        self.sys.comps.push(m);
        Tree::Leaf(k)
    }
    fn like(&mut self, c: &mut Case, m: &Comp) -> Tree {
        let m = if c.chance(1, 2) { m.clone() } else { mutate(c, m, &m.name, self.max) };
        self.leaf(m)
    }
    /// The clocks of quotients come last.
    fn finish(mut self, tree: Tree) -> Sys {
        self.sys.tree = number(tree, &mut self.sys.comps);
        for _ in self.sys.names.len()..self.sys.comps.len() {
            self.sys.names.push((QUOTIENT.into(), None));
        }
        self.sys
    }
}

fn number(t: Tree, comps: &mut Vec<Comp>) -> Tree {
    match t {
        Tree::Leaf(i) => Tree::Leaf(i),
        Tree::Par(l, r) => Tree::Par(Box::new(number(*l, comps)), Box::new(number(*r, comps))),
        Tree::And(l, r) => Tree::And(Box::new(number(*l, comps)), Box::new(number(*r, comps))),
        Tree::Quot(l, r, _) => {
            let (l, r) = (number(*l, comps), number(*r, comps));
            comps.push(quotient_part());
            Tree::Quot(Box::new(l), Box::new(r), comps.len() - 1)
        }
    }
}

fn par(l: Tree, r: Tree) -> Tree {
    Tree::Par(Box::new(l), Box::new(r))
}
fn and(l: Tree, r: Tree) -> Tree {
    Tree::And(Box::new(l), Box::new(r))
}
fn quot(l: Tree, r: Tree) -> Tree {
    Tree::Quot(Box::new(l), Box::new(r), 0)
}

/// S, X, and what a quotient by S is taken of.
struct Three {
    s: Comp,
    x: Comp,
    t: Vec<Comp>,
}
fn three(c: &mut Case, locs: &[usize]) -> Three {
    let locs = *c.pick(locs);
    let (mut comps, _, _) = gen_three_of(c, locs);
    let t = comps.split_off(2);
    let x = comps.pop().unwrap();
    Three { s: comps.pop().unwrap(), x, t }
}
fn parts() -> Parts {
    Parts { sys: Sys { comps: vec![], tree: Tree::Leaf(0), names: vec![] }, max: 2 }
}
fn whole_t(p: &mut Parts, h: &Three) -> Tree {
    let l = p.leaf(h.t[0].clone());
    match h.t.get(1) {
        None => l,
        Some(m) => {
            let r = p.leaf(m.clone());
            par(l, r)
        }
    }
}

/// A system with one quotient.
pub fn gen(c: &mut Case) -> Sys {
    gen_and(c, &[2, 3, 4]).0
}

/// And a component that may refine it.
pub fn gen_and(c: &mut Case, locs: &[usize]) -> (Sys, Comp) {
    let h = three(c, locs);
    let mut p = parts();
    let kind = c.below(8);
    let tree = match kind {
        0 => {
            // composed with what it needs
            let t = whole_t(&mut p, &h);
            let s = p.leaf(h.s.clone());
            let o = p.like(c, &h.s);
            par(quot(t, s), o)
        }
        1 => {
            let o = p.like(c, &h.s);
            let t = whole_t(&mut p, &h);
            let s = p.leaf(h.s.clone());
            par(o, quot(t, s))
        }
        2 => {
            // and what should fit
            let t = whole_t(&mut p, &h);
            let s = p.leaf(h.s.clone());
            let o = p.like(c, &h.x);
            and(quot(t, s), o)
        }
        3 => {
            let t = whole_t(&mut p, &h);
            let s = p.leaf(h.s.clone());
            let s2 = p.like(c, &h.s);
            quot(t, and(s, s2))
        }
        4 => {
            let t = p.leaf(h.t[0].clone());
            let t2 = p.like(c, &h.t[0]);
            let s = p.leaf(h.s.clone());
            quot(and(t, t2), s)
        }
        _ => {
            let t = whole_t(&mut p, &h);
            let s = p.leaf(h.s.clone());
            quot(t, s)
        }
    };
    (p.finish(tree), if kind < 2 { h.t[0].clone() } else { h.x.clone() })
}

fn simulation(c: &mut Case) -> Res {
    let s = gen(c);
    // a choice that is not one decision cannot be taken
    if s.comps.iter().any(own_overlap) {
        return c.discard();
    }
    walk_in(c, s, false)
}

fn reachability(c: &mut Case) -> Res {
    let s = gen(c);
    let q = question(c, s, 3);
    judge_and_follow(c, q)
}

/// Refinement with quotients on one side or both.
fn refinement(c: &mut Case) -> Res {
    let (l, r) = gen_sides(c, true);
    judge(c, &l, &r)
}

/// Two systems, which have one quotient together or, if `several`, maybe more.
pub fn gen_sides(c: &mut Case, several: bool) -> (Sys, Sys) {
    let h = three(c, &[1, 2, 2, 3]);
    let (mut l, mut r) = (parts(), parts());
    let (tl, tr) = match if several { c.below(7) } else { *c.pick(&[6, 1, 3, 4]) } {
        0 => {
            // two quotients of the same kind
            let t = whole_t(&mut l, &h);
            let s = l.leaf(h.s.clone());
            let mut q = l.finish(quot(t, s));
            rename(&mut q, "L");
            let mut v = vary(c, &q, 2);
            for (m, n) in v.comps.iter_mut().zip(&q.comps) {
                if n.name == QUOTIENT {
                    *m = n.clone();
                }
            }
            return (q, v);
        }
        1 => {
            // what is left, and what it was taken from
            let t = whole_t(&mut l, &h);
            let s = l.leaf(h.s.clone());
            let s2 = l.like(c, &h.s);
            let tl = if c.chance(1, 2) { par(quot(t, s), s2) } else { par(s2, quot(t, s)) };
            let tr = whole_t(&mut r, &h);
            (tl, tr)
        }
        2 => {
            // X and the quotient refine the quotient
            let x = l.leaf(h.x.clone());
            let t = whole_t(&mut l, &h);
            let s = l.leaf(h.s.clone());
            let tl = and(x, quot(t, s));
            let t = whole_t(&mut r, &h);
            let s = r.like(c, &h.s);
            (tl, quot(t, s))
        }
        3 => {
            let tl = l.like(c, &h.x);
            let t = whole_t(&mut r, &h);
            let s = r.leaf(h.s.clone());
            let s2 = r.like(c, &h.s);
            (tl, quot(t, and(s, s2)))
        }
        4 => {
            let tl = l.leaf(h.x.clone());
            let t = whole_t(&mut r, &h);
            let s = r.leaf(h.s.clone());
            let x = r.like(c, &h.x);
            (tl, and(quot(t, s), x))
        }
        5 => {
            // twice
            let tl = l.leaf(h.x.clone());
            let t = whole_t(&mut r, &h);
            let s = r.leaf(h.s.clone());
            let s2 = r.like(c, &h.x);
            (tl, quot(quot(t, s), s2))
        }
        _ => {
            let t = whole_t(&mut l, &h);
            let s = l.leaf(h.s.clone());
            (quot(t, s), r.like(c, &h.x))
        }
    };
    let (l, mut r) = (l.finish(tl), r.finish(tr));
    rename(&mut r, "R");
    (l, r)
}

fn rename(s: &mut Sys, prefix: &str) {
    for (m, n) in s.comps.iter_mut().zip(&mut s.names) {
        if m.name != QUOTIENT {
            m.name = format!("{}{}", prefix, m.name);
            n.0 = m.name.clone();
        }
    }
}

pub fn specs() -> Vec<Spec> {
    vec![
        Spec {
            id: "S03",
            prop: simulation,
            quick: 12_000,
            thorough: 360_000,
            rule: "a random system with a quotient, of which up to four of the decisions offered are taken; non-trivial: at least two steps",
            assumptions: ASSUME,
            fixed: &[],
            floors: &[("two steps", 5.0), ("longer", 5.0), ("leaves a quotient", 5.0)],
            threads: 8,
        },
        Spec {
            id: "P04",
            prop: reachability,
            quick: 8_000,
            thorough: 240_000,
            rule: "a random system with a quotient, the initial or a given start state and a possibly partial end state with clock bounds; non-trivial: the start state itself is not an answer; the path that is shown is followed",
            assumptions: ASSUME,
            fixed: &[],
            floors: &[("reachable", 20.0), ("unreachable", 8.0), ("one step", 5.0), ("two steps", 1.0)],
            threads: 8,
        },
        Spec {
            id: "R04",
            prop: refinement,
            quick: 16_000,
            thorough: 480_000,
            rule: "two systems, with a quotient in one of them or both; non-trivial: the precondition holds and the reference explores more than three region pairs, or finds a difference",
            assumptions: ASSUME,
            fixed: &[],
            floors: &[("refines", 3.0), ("does not refine", 3.0)],
            threads: 8,
        },
    ]
}
