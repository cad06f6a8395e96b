//! What a negative answer says: states, actions and systems named in it have to show the failure.
use crate::backend::{ask, Answer};
use crate::model::*;
use crate::region::{St, Tree, World, QUOTIENT};
use crate::systems::*;
use pbt::{check, fail, Case, Res, Spec};
use reveaal::ProtobufServer::services as pb;
use reveaal::ProtobufServer::services::query_response as qr;
use reveaal::ProtobufServer::services::query_response::Result as R;
use std::collections::BTreeSet;

use super::reach::{in_zone, leaves_of, locations};
use super::verdicts::{own_overlap, ASSUME};
const LIMIT: usize = 4000;

/// Whether a reachable state could be in a zone that is shown: points with a clock above all
/// constants are not looked up.
fn may_be_in(w: &World, s: &Sys, zone: &pb::Disjunction, st: &St) -> Result<bool, String> {
    let k = w.max.len() as i64 + 1;
    match point(&st.reg, k) {
        Some(p) => in_zone(w, s, zone, &p, k),
        None => Ok(true),
    }
}

macro_rules! ok {
    ($e:expr) => {
        match $e {
            Ok(v) => v,
            Err(m) => fail!("{}", m),
        }
    };
}

/// Both sides as one list of components.
fn join(s: &Sys, t: &Sys) -> (Sys, Tree, Tree) {
    // in the order of the query; those that stand for quotients come last
    let n = s.comps.len();
    let (mut all, mut right) = (vec![], vec![]);
    s.tree.leaves(&mut all);
    t.tree.leaves(&mut right);
    all.extend(right.iter().map(|i| n + i));
    let comp = |i: usize| if i < n { &s.comps[i] } else { &t.comps[i - n] };
    let name = |i: usize| if i < n { &s.names[i] } else { &t.names[i - n] };
    let (quotients, mut order): (Vec<usize>, Vec<usize>) = all.iter().partition(|i| comp(**i).name == QUOTIENT);
    order.extend(quotients);
    let place = |i: usize| order.iter().position(|k| *k == i).unwrap();
    let (ls, lt) = (moved(&s.tree, &|i| place(i)), moved(&t.tree, &|i| place(n + i)));
    let sys = Sys {
        comps: order.iter().map(|i| comp(*i).clone()).collect(),
        tree: Tree::Par(Box::new(ls.clone()), Box::new(lt.clone())),
        names: order.iter().map(|i| name(*i).clone()).collect(),
    };
    (sys, ls, lt)
}

fn moved(t: &Tree, f: &dyn Fn(usize) -> usize) -> Tree {
    let go = |t: &Tree| Box::new(moved(t, f));
    match t {
        Tree::Leaf(i) => Tree::Leaf(f(*i)),
        Tree::Par(l, r) => Tree::Par(go(l), go(r)),
        Tree::And(l, r) => Tree::And(go(l), go(r)),
        Tree::Quot(l, r, q) => Tree::Quot(go(l), go(r), f(*q)),
    }
}

fn inconsistency(all: &Sys, f: &qr::ConsistencyFailure) -> Res {
    use qr::consistency_failure::Failure as F;
    // which component it is about
    let named: Vec<usize> = (0..all.comps.len()).filter(|i| all.comps[*i].name == f.system).collect();
    check!(!named.is_empty(), "no component is called {}", f.system);
    match &f.failure {
        Some(F::FailureState(state)) => {
            let (Some(tree), Some(zone)) = (&state.location_tree, &state.zone) else { fail!("a state without location or zone") };
            let Some((i, at)) = named.iter().find_map(|i| {
                let mut locs = vec![];
                leaves_of(tree, &Tree::Leaf(*i), all, &mut locs).ok().map(|_| (*i, locs[0]))
            }) else {
                fail!("the state is not one of {}: {:?}", f.system, tree)
            };
            let own = Sys { comps: vec![all.comps[i].clone()], tree: Tree::Leaf(0), names: vec![all.names[i].clone()] };
            let w = World::new(own.refs());
            let Some(syms) = w.symbolic(&Tree::Leaf(0), 300) else { return Ok(()) };
            let zone = numbered(zone, i as u32);
            for ((locs, regs), good) in &syms {
                if *good || locs[0] != at {
                    continue;
                }
                let mut inside = true;
                for r in regs {
                    inside &= ok!(may_be_in(&w, &own, &zone, &St { locs: locs.clone(), reg: r.clone() }));
                }
                if inside {
                    return Ok(());
                }
            }
            fail!("{} in {} is not an inconsistent state that can be reached: {:?}", own.comps[0].name, own.comps[0].locs[at as usize].id, zone)
        }
        Some(F::Determinism(d)) => overlap(all, d),
        Some(F::NoInitialState(_)) => {
            let none = named.iter().any(|i| {
                let w = World::new(vec![&all.comps[*i]]);
                !w.inv_comp(0, &w.initial())
            });
            check!(none, "{} has an initial state", f.system);
            Ok(())
        }
        other => fail!("unexpected: {:?}", other),
    }
}

/// The zone with the clocks of component `i` as those of the first one.
fn numbered(z: &pb::Disjunction, i: u32) -> pb::Disjunction {
    let mut z = z.clone();
    let clocks = z.conjunctions.iter_mut().flat_map(|c| &mut c.constraints).flat_map(|c| [&mut c.x, &mut c.y]);
    for x in clocks.flatten() {
        if let Some(pb::clock::Clock::ComponentClock(k)) = &mut x.clock {
            if let Some(inst) = &mut k.component_instance {
                inst.component_index = if inst.component_index == i { 0 } else { 99 };
            }
        }
    }
    z
}

/// Two edges for the action named, in the location named, with clock values in the zone.
fn overlap(all: &Sys, d: &qr::DeterminismFailure) -> Res {
    let named: Vec<usize> = (0..all.comps.len()).filter(|i| all.comps[*i].name == d.system).collect();
    let Some(sa) = &d.failure_state else { fail!("no state") };
    let Some(state) = &sa.state else { fail!("no state") };
    let (Some(tree), Some(_)) = (&state.location_tree, &state.zone) else { fail!("a state without location or zone") };
    let Some((i, at)) = named.iter().find_map(|i| {
        let mut locs = vec![];
        leaves_of(tree, &Tree::Leaf(*i), all, &mut locs).ok().map(|_| (*i, locs[0] as usize))
    }) else {
        fail!("the state is not one of {}: {:?}", d.system, tree)
    };
    let w = World::new(vec![&all.comps[i]]);
    let Some(regions) = all_regions(&w.max, 3000) else { return Ok(()) };
    let m = &all.comps[i];
    check!(m.edges.iter().any(|e| e.action == sa.action), "{} has no action {}", m.name, sa.action);
    for reg in regions {
        let st = St { locs: vec![at as u8], reg };
        let n = m.edges.iter().enumerate().filter(|(k, e)| e.src == at && e.action == sa.action && w.edge_enabled(0, *k, &st.reg)).count();
        if n > 1 && w.inv_comp(0, &st) {
            return Ok(());
        }
    }
    fail!("no two edges for {} overlap in {}.{}", sa.action, m.name, m.locs[at].id)
}

fn action_mismatch(w: &World, sides: &[(String, &Tree)], f: &pb::ActionFailure, subset: bool) -> Res {
    check!(f.action_sets.len() == 2, "{} action sets", f.action_sets.len());
    let mut sets = vec![];
    for a in &f.action_sets {
        let got: BTreeSet<String> = a.actions.iter().cloned().collect();
        check!(got.len() == a.actions.len(), "an action twice in {:?}", a);
        let plain = |t: &str| t.replace(['(', ')', ' '], "").replace("//", "\\\\");
        let Some((_, t)) = sides.iter().find(|(n, t)| {
            plain(n) == plain(&a.system) && got == if a.is_input { w.inputs(t) } else { w.outputs(t) }
        }) else {
            fail!("these are not the {} of {}: {:?}", if a.is_input { "inputs" } else { "outputs" }, a.system, a.actions)
        };
        let _ = t;
        sets.push(got);
    }
    if f.failure == 0 {
        check!(subset, "there is no such failure here");
        check!(!sets[0].is_subset(&sets[1]), "{:?} is a subset of {:?}", sets[0], sets[1]);
    } else {
        check!(!sets[0].is_disjoint(&sets[1]), "{:?} and {:?} are disjoint", sets[0], sets[1]);
    }
    Ok(())
}

fn refinement(c: &mut Case) -> Res {
    let (s, t) = if c.chance(1, 4) { super::quotsim::gen_sides(c, false) } else { super::composite::gen_sides(c) };
    let query = format!("refinement: {} <= {}", s.text(), t.text());
    c.describe(format!("{}\n{}\n{}", query, s.show(), t.show()));
    let (all, ls, lt) = join(&s, &t);
    let w = World::new(all.refs());
    if s.tree.has_quotient() || t.tree.has_quotient() {
        c.class("with a quotient");
    }
    if all.comps.iter().any(own_overlap) && c.chance(1, 2) {
        return c.discard();
    }
    let a = ask(&all.refs(), &query);
    let f = match &a {
        Answer::No(R::Refinement(f)) => f,
        Answer::No(R::Model(f)) => return model_failure(c, &all, &w, [&ls, &lt], f),
        Answer::No(other) => fail!("another kind of failure: {:?}", other),
        Answer::Yes(_) => return c.discard(),
        other => fail!("{}", other.short()),
    };
    c.append(&format!("\n{}", a.short()));
    c.nontrivial(true);
    use qr::refinement_failure::Failure as F;
    match &f.failure {
        Some(F::RefinementState(r)) => {
            let Some(sa) = &r.state else { fail!("no state") };
            let Some(state) = &sa.state else { fail!("no state") };
            let (Some(tree), Some(zone)) = (&state.location_tree, &state.zone) else { fail!("a state without location or zone") };
            let mut locs = vec![0; all.comps.len()];
            match &tree.node_type {
                Some(pb::location_tree::NodeType::BinaryLocationOp(b)) if b.operator == 3 => {
                    let (Some(l), Some(r)) = (&b.left, &b.right) else { fail!("a side is missing") };
                    ok!(locations(l, &ls, &all, &mut locs));
                    ok!(locations(r, &lt, &all, &mut locs));
                }
                other => fail!("not a pair of states: {:?}", other),
            }
            let Some(pairs) = w.pairs(&ls, &lt, LIMIT) else { return c.discard() };
            let (so, to, si, ti) = (w.outputs(&ls), w.outputs(&lt), w.inputs(&ls), w.inputs(&lt));
            let x = &sa.action;
            let cut = r.unmatched == 1;
            c.class(if cut { "delay" } else { "action" });
            if !(cut && x.is_empty()) {
                check!(so.contains(x) || ti.contains(x), "{:?} is neither an output of the left side nor an input of the right side", x);
            }
            for st in pairs.iter().filter(|p| p.locs == locs) {
                if !ok!(may_be_in(&w, &all, zone, st)) {
                    continue;
                }
                let left = if so.contains(x) || si.contains(x) { w.moves(&ls, st, x).len() } else { 1 };
                let right = if to.contains(x) || ti.contains(x) { w.moves(&lt, st, x).len() } else { 1 };
                let shown = if !cut {
                    if so.contains(x) { left > 0 && right == 0 } else { right > 0 && left == 0 }
                } else {
                    // after the action, or at the start if there is none
                    let after: Vec<St> = if x.is_empty() {
                        vec![w.initial()]
                    } else {
                        let stay = vec![crate::region::Move { parts: vec![], gone: vec![] }];
                        let m1 = if so.contains(x) || si.contains(x) { w.moves(&ls, st, x) } else { stay.clone() };
                        let m2 = if to.contains(x) || ti.contains(x) { w.moves(&lt, st, x) } else { stay };
                        m1.iter().flat_map(|a| m2.iter().map(move |b| (a, b))).map(|(a, b)| w.apply(&w.apply(st, a), b)).collect()
                    };
                    after.iter().any(|n| w.inv(&ls, n) && w.delays(&ls, n).iter().any(|d| !w.inv(&lt, d)))
                };
                if shown {
                    return Ok(());
                }
            }
            fail!("the state and action shown are not a reason")
        }
        Some(F::InconsistentChild(cf)) => {
            c.class("inconsistent side");
            inconsistency(&all, cf)
        }
        Some(F::ActionMismatch(m)) => {
            c.class("actions");
            action_mismatch(&w, &[(s.text(), &ls), (t.text(), &lt)], m, true)
        }
        other => {
            // at the start
            c.class("other");
            let init = w.initial();
            check!(!w.inv(&ls, &init) || !w.inv(&lt, &init), "unexpected: {:?}", other);
            Ok(())
        }
    }
}

fn subtrees<'t>(t: &'t Tree, out: &mut Vec<&'t Tree>) {
    out.push(t);
    if let Tree::Par(l, r) | Tree::And(l, r) | Tree::Quot(l, r, _) = t {
        subtrees(l, out);
        subtrees(r, out);
    }
}

/// The sides could not be built.
fn model_failure(c: &mut Case, all: &Sys, w: &World, sides: [&Tree; 2], f: &qr::ModelFailure) -> Res {
    use qr::model_failure::Failure as F;
    c.append(&format!("\n{:?}", f));
    let mut parts = vec![];
    sides.iter().for_each(|t| subtrees(t, &mut parts));
    match &f.failure {
        Some(F::InconsistentConjunction(cf)) => {
            c.class("conjunction");
            let mut all_fine = true;
            for t in parts.iter().filter(|t| matches!(t, Tree::And(..))) {
                all_fine &= w.consistent(t, 150) == Some(true);
            }
            if all_fine && all.tree.has_quotient() {
                // a part of a quotient
                c.nontrivial(true);
                c.class("part of a quotient");
                let mut below = vec![];
                sides.iter().for_each(|t| quotient_leaves(t, &mut below));
                check!(below.iter().any(|i| all.comps[*i].name == cf.system), "{} is not part of a quotient", cf.system);
                return inconsistency(all, cf);
            }
            check!(!all_fine, "all conjunctions are consistent");
            Ok(())
        }
        Some(F::ActionMismatch(m)) => {
            c.class("parts");
            c.nontrivial(true);
            check!(m.failure == 1, "only a quotient or refinement has such a failure");
            let named: Vec<(String, &Tree)> = parts.iter().map(|t| (all.tree_text(t, true), *t)).collect();
            action_mismatch(w, &named, m, false)?;
            // the two sets have to be those of the two sides of one operator
            let plain = |t: &str| t.replace(['(', ')', ' '], "").replace("//", "\\\\");
            let (a, b) = (&m.action_sets[0], &m.action_sets[1]);
            let together = parts.iter().any(|t| match t {
                Tree::Leaf(_) => false,
                Tree::Par(l, r) | Tree::And(l, r) | Tree::Quot(l, r, _) => {
                    let (l, r) = (plain(&all.tree_text(l, true)), plain(&all.tree_text(r, true)));
                    let (a_, b_) = (plain(&a.system), plain(&b.system));
                    (l == a_ && r == b_ || l == b_ && r == a_)
                        && match t {
                            Tree::Par(..) => !a.is_input && !b.is_input,
                            // outputs of the right side, inputs of the left one
                            Tree::Quot(..) => !a.is_input && b.is_input && r == a_,
                            _ => a.is_input != b.is_input,
                        }
                }
            });
            check!(together, "{} and {} are not combined in the query in a way that rules this out", a.system, b.system);
            Ok(())
        }
        other => fail!("unexpected: {:?}", other),
    }
}

/// Single components, with overlaps and inconsistencies.
fn single(c: &mut Case) -> Res {
    let mut p = Params::new(&["i1", "i2"][..1 + c.idx(2)], &["o1", "o2"][..1 + c.idx(2)]);
    p.clocks = *c.pick(&[1, 1, 2, 0]);
    p.locs = *c.pick(&[2, 3, 4]);
    p.max_const = *c.pick(&[2, 3]);
    p.inv_pct = 60;
    p.progress = c.chance(1, 3);
    p.disjunctions = c.chance(1, 4);
    p.deterministic = c.chance(1, 2);
    let m = gen_comp(c, "A", &p);
    let kind = *c.pick(&["consistency", "determinism"]);
    c.describe(format!("{}: A\n{}", kind, m.show()));
    let all = Sys { comps: vec![m.clone()], tree: Tree::Leaf(0), names: vec![("A".into(), None)] };
    let w = World::new(all.refs());
    if !w.inv_comp(0, &w.initial()) {
        return c.discard();
    }
    let a = ask(&[&m], &format!("{}: A", kind));
    c.append(&format!("\n{}", a.short()));
    match &a {
        Answer::Yes(_) => c.discard(),
        Answer::No(R::Consistency(f)) if kind == "consistency" => {
            c.nontrivial(true);
            c.class(if matches!(f.failure, Some(qr::consistency_failure::Failure::Determinism(_))) { "not deterministic" } else { "inconsistent" });
            inconsistency(&all, f)
        }
        Answer::No(R::Determinism(d)) if kind == "determinism" => {
            c.nontrivial(true);
            c.class("overlap");
            overlap(&all, d)
        }
        other => fail!("unexpected: {}", other.short()),
    }
}

pub fn specs() -> Vec<Spec> {
    vec![
        Spec {
            id: "F01",
            prop: refinement,
            quick: 16_000,
            thorough: 480_000,
            rule: "a refinement of random systems as in R02 that is answered with no; every such answer counts",
            assumptions: ASSUME,
            fixed: &[],
            floors: &[("delay", 3.0), ("action", 3.0), ("inconsistent side", 3.0), ("actions", 3.0), ("with a quotient", 5.0)],
            threads: 8,
        },
        Spec {
            id: "F02",
            prop: single,
            quick: 30_000,
            thorough: 900_000,
            rule: "a consistency or determinism query about a random component that is answered with no; every such answer counts",
            assumptions: ASSUME,
            fixed: &[],
            floors: &[("inconsistent", 3.0), ("overlap", 3.0), ("not deterministic", 3.0)],
            threads: 8,
        },
    ]
}
