//! Verdicts of determinism, consistency and refinement against the region reference.
use crate::backend::{ask, Answer};
use crate::model::*;
use crate::region::{Tree, World};
use pbt::{check, fail, Case, Res, Spec};

pub const ASSUME: &[&str] = &[
    "the stand-in crates in stubs/ behave like the originals (own zone library in place of EDBM)",
    "the region reference in harness/src/region.rs",
];
const LIMIT: usize = 4000;

fn small(c: &mut Case) -> Params {
    let mut p = Params::new(&["i1", "i2"][..1 + c.idx(2)], &["o1", "o2"][..1 + c.idx(2)]);
    p.clocks = *c.pick(&[1, 1, 2, 0]);
    p.locs = *c.pick(&[2, 3, 4]);
    p.max_const = *c.pick(&[2, 3, 5]);
    p
}

fn internal(a: &Answer) -> Res {
    match a {
        Answer::Internal(m) => fail!("internal error: {}", m),
        Answer::Rejected(m) => fail!("rejected: {}", m),
        _ => Ok(()),
    }
}

/// Determinism of a single component.
fn determinism(c: &mut Case) -> Res {
    let mut p = small(c);
    p.deterministic = c.chance(1, 2);
    p.disjunctions = c.chance(1, 3);
    p.progress = c.chance(1, 2);
    let comp = gen_comp(c, "A", &p);
    c.describe(comp.show());
    let w = World::new(vec![&comp]);
    let Some(nondet) = w.nondeterministic_state(0, LIMIT) else { return c.discard() };
    let overlap = w.overlapping_edges(0);
    let invalid_start = !w.inv_comp(0, &w.initial());
    c.nontrivial(comp.edges.len() >= 2);
    c.class(match (&nondet, overlap) {
        (Some(_), _) => "nondeterministic",
        (None, false) => "deterministic",
        (None, true) => "overlap that is not reached",
    });
    let a = ask(&[&comp], "determinism: A");
    internal(&a)?;
    if let (Some(st), true, false) = (&nondet, a.yes(), invalid_start) {
        fail!("reported deterministic, but has a choice in locations {:?} with clocks {}", st.locs, st.reg.show());
    }
    check!(overlap || !a.no(), "reported nondeterministic, but no location has overlapping edges: {}", a.short());
    Ok(())
}

/// Consistency of a single component.
fn consistency(c: &mut Case) -> Res {
    let mut p = small(c);
    p.inv_pct = 60;
    p.progress = c.chance(1, 3);
    p.disjunctions = c.chance(1, 4);
    let comp = gen_comp(c, "A", &p);
    c.describe(comp.show());
    let w = World::new(vec![&comp]);
    if w.overlapping_edges(0) {
        return c.discard();
    }
    let Some(consistent) = w.consistent(&Tree::Leaf(0), 300) else { return c.discard() };
    c.nontrivial(comp.locs.iter().any(|l| !l.inv.is_empty()));
    c.class(if consistent { "consistent" } else { "inconsistent" });
    let a = ask(&[&comp], "consistency: A");
    internal(&a)?;
    check!(!consistent || a.yes(), "reported inconsistent: {}", a.short());
    check!(consistent || a.no(), "reported consistent, but it is not");
    Ok(())
}

pub fn own_consistency(comp: &Comp) -> Option<bool> {
    World::new(vec![comp]).consistent(&Tree::Leaf(0), 300)
}
pub fn own_overlap(comp: &Comp) -> bool {
    World::new(vec![comp]).overlapping_edges(0)
}

/// Refinement between two components.
fn refinement(c: &mut Case) -> Res {
    let mut p = small(c);
    if p.clocks == 2 {
        // four clocks in a pair: keep the exploration small
        p.max_const = 2;
        p.locs = 2;
    }
    let mut s = gen_comp(c, "S", &p);
    let related = !c.chance(1, 4);
    let mut t = if related {
        mutate(c, &s, "T", p.max_const)
    } else {
        p.clocks = p.clocks.min(1 + c.idx(2));
        gen_comp(c, "T", &p)
    };
    if c.chance(3, 4) {
        fill_alphabet(&mut s, &p);
        fill_alphabet(&mut t, &p);
    }
    c.describe(format!("S = {}\nT = {}", s.show(), t.show()));
    let w = World::new(vec![&s, &t]);
    let (ls, lt) = (Tree::Leaf(0), Tree::Leaf(1));
    if own_overlap(&s) || own_overlap(&t) {
        return c.discard();
    }
    let (Some(cs), Some(ct)) = (own_consistency(&s), own_consistency(&t)) else { return c.discard() };
    let (si, so, ti, to) = (w.inputs(&ls), w.outputs(&ls), w.inputs(&lt), w.outputs(&lt));
    let clash = [&s, &t].iter().any(|m| m.inputs().iter().any(|i| m.outputs().contains(i)));
    let pre = !clash && si.is_disjoint(&to) && ti.is_disjoint(&so) && si.is_subset(&ti) && to.is_subset(&so);
    let a = ask(&[&s, &t], "refinement: S <= T");
    internal(&a)?;
    if !pre || !cs || !ct {
        c.class("precondition fails");
        check!(a.no(), "satisfied although a precondition fails (actions fit: {}, S consistent: {}, T consistent: {})", pre, cs, ct);
        return Ok(());
    }
    let Some(r) = w.refines(&ls, &lt, LIMIT) else { return c.discard() };
    match r {
        Ok(n) => {
            c.class("refines");
            c.nontrivial(n > 3);
            check!(a.yes(), "holds, but reported {}", a.short());
        }
        Err(why) => {
            c.class("does not refine");
            c.nontrivial(true);
            check!(!a.yes(), "reported satisfied, but {}", why);
        }
    }
    Ok(())
}

pub fn specs() -> Vec<Spec> {
    vec![
        Spec {
            id: "D01",
            prop: determinism,
            quick: 20_000,
            thorough: 600_000,
            rule: "a random component of up to 4 locations, 2 clocks and 4 actions, half of them with overlapping edges on purpose; non-trivial: at least two edges",
            assumptions: ASSUME,
            fixed: &[],
            floors: &[("nondeterministic", 3.0), ("deterministic", 10.0)],
            threads: 8,
        },
        Spec {
            id: "K01",
            prop: consistency,
            quick: 20_000,
            thorough: 600_000,
            rule: "a random component without overlapping edges, most with invariants; non-trivial: some location has an invariant",
            assumptions: ASSUME,
            fixed: &[],
            floors: &[("consistent", 10.0), ("inconsistent", 3.0)],
            threads: 8,
        },
        Spec {
            id: "R01",
            prop: refinement,
            quick: 20_000,
            thorough: 600_000,
            rule: "a random component and a variation of it (or an unrelated one), no overlapping edges; non-trivial: the precondition holds and the reference explores more than three region pairs, or finds a difference",
            assumptions: ASSUME,
            fixed: &[],
            floors: &[("refines", 3.0), ("does not refine", 5.0), ("precondition fails", 3.0)],
            threads: 8,
        },
    ]
}
