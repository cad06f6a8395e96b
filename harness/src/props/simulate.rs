//! Simulation: what is offered in a state, and where a choice leads.
use crate::backend::{start, step};
use crate::region::{Reg, St, Tree, World, QUOTIENT};
use crate::systems::*;
use pbt::{check, fail, Case, Res, Spec};
use reveaal::ProtobufServer::services as pb;
use std::collections::{BTreeMap, HashSet};

use super::reach::{edge_key, in_zone, move_key, same_states};
use super::special::all_specials;
use super::verdicts::ASSUME;

type Key = (String, BTreeMap<usize, Option<usize>>);

pub fn gen_walkable(c: &mut Case, clocks: usize) -> Sys {
    let two = c.chance(1, 2);
    let sh = Shape {
        max_leaves: if two { 3 } else { 1 },
        clocks: 1 + c.idx(clocks),
        max_const: *c.pick(&[2, 3]),
        locs: *c.pick(&[2, 3, 4]),
        conjunctions: true,
        inv_pct: 50,
        any_inv: c.chance(1, 3),
    };
    let outs: &[&str] = if two { &["a", "b", "o"] } else { &["a", "b"] };
    let ins = 1 + c.idx(2);
    let mut sys = gen_sys(c, &sh, &["i", "j"][..ins], outs, "");
    if sys.comps.len() == 2 && matches!(sys.tree, Tree::And(..)) && c.chance(1, 4) {
        sys.comps[1] = sys.comps[0].clone();
        let n = sys.comps[0].name.clone();
        sys.names = vec![(n.clone(), Some("1".into())), (n, Some("2".into()))];
    }
    sys
}

/// A component in a universal or inconsistent location takes part without an edge, as one does that
/// ignores an input; which of these it is does not matter if `loose`.
fn trim(mut key: BTreeMap<usize, Option<usize>>, loose: bool) -> BTreeMap<usize, Option<usize>> {
    if loose {
        key.retain(|_, e| e.is_some());
    }
    key
}

/// What the reference offers in a set of states: per action and edges the states it is possible
/// from, and the ones it leads to.
fn offers(w: &World, t: &Tree, now: &HashSet<St>, loose: bool) -> BTreeMap<Key, (HashSet<St>, HashSet<St>)> {
    let mut out: BTreeMap<Key, (HashSet<St>, HashSet<St>)> = BTreeMap::new();
    for st in now {
        for a in w.actions(t) {
            for m in w.moves(t, st, &a) {
                let e = out.entry((a.clone(), trim(move_key(&m), loose))).or_default();
                e.0.insert(st.clone());
                e.1.extend(w.delays(t, &w.apply(st, &m)));
            }
        }
    }
    out
}

fn union(states: &[&pb::State]) -> pb::State {
    let mut s = states[0].clone();
    for o in &states[1..] {
        let more = o.zone.clone().unwrap_or_default().conjunctions;
        s.zone.get_or_insert_with(Default::default).conjunctions.extend(more);
    }
    s
}

fn compare(w: &World, s: &Sys, what: &str, now: &HashSet<St>, r: &pb::SimulationStepResponse, regions: &[Reg], loose: bool) -> Res {
    let t = &s.tree;
    let Some(full) = &r.full_state else { fail!("{}: no state", what) };
    same_states(w, s, &format!("{}, state", what), full, now, regions)?;
    let want = offers(w, t, now, loose);
    let mut got: BTreeMap<Key, Vec<&pb::Decision>> = BTreeMap::new();
    for d in &r.new_decision_points {
        match edge_key(s, d) {
            Ok(key) => got.entry((d.action.clone(), trim(key, loose))).or_default().push(d),
            Err(m) => fail!("{}: {}", what, m),
        }
    }
    for k in want.keys() {
        check!(got.contains_key(k), "{}: {} by {:?} is possible, but not offered", what, k.0, k.1);
    }
    for (k, ds) in &got {
        let Some((from, to)) = want.get(k) else { fail!("{}: {} by {:?} is offered, but not possible", what, k.0, k.1) };
        let (mut a, mut b) = (vec![], vec![]);
        for d in ds {
            let (Some(x), Some(y)) = (&d.source, &d.destination) else { fail!("{}: a state is missing in a decision", what) };
            a.push(x);
            b.push(y);
        }
        let name = format!("{}, {} by {:?}", what, k.0, k.1);
        same_states(w, s, &format!("{}, source", name), &union(&a), from, regions)?;
        same_states(w, s, &format!("{}, destination", name), &union(&b), to, regions)?;
    }
    Ok(())
}

fn begin<'a>(s: &'a Sys) -> Option<(World<'a>, HashSet<St>, Vec<Reg>)> {
    let mut w = World::new(s.refs());
    w.raise_quotient_clocks();
    if !can_be_built(&w, &s.tree)? {
        return None;
    }
    let init = w.initial();
    if !w.inv(&s.tree, &init) {
        return None;
    }
    let regions = all_regions(&w.max, 3000)?;
    let now = w.delays(&s.tree, &init).into_iter().collect();
    Some((w, now, regions))
}

fn first(c: &mut Case) -> Res {
    let s = gen_walkable(c, 3);
    c.describe(format!("{}\n{}", s.text(), s.show()));
    let Some((w, now, regions)) = begin(&s) else { return c.discard() };
    let r = match start(&s.models(), &s.text()) {
        Ok(r) => r,
        Err(e) => fail!("the simulation does not start: {}", e),
    };
    c.nontrivial(r.new_decision_points.len() >= 2);
    c.class(match r.new_decision_points.len() {
        0 => "none",
        1 => "one",
        2..=4 => "some",
        _ => "many",
    });
    compare(&w, &s, "at the start", &now, &r, &regions, false)
}

fn walk(c: &mut Case) -> Res {
    let s = gen_walkable(c, 3);
    walk_in(c, s, false)
}

/// With universal and inconsistent locations.
fn walk_special(c: &mut Case) -> Res {
    let quotient = c.chance(1, 4);
    let mut s = if quotient { super::quotsim::gen(c) } else { gen_walkable(c, 2) };
    let some = all_specials(c, &mut s);
    if quotient && s.comps.iter().any(super::verdicts::own_overlap) {
        return c.discard();
    }
    if s.comps.len() == 2 && s.comps[0].name == s.comps[1].name {
        s.comps[1] = s.comps[0].clone();
    }
    if !some {
        return c.discard();
    }
    walk_in(c, s, true)
}

pub fn walk_in(c: &mut Case, s: Sys, loose: bool) -> Res {
    c.describe(format!("{}\n{}", s.text(), s.show()));
    let Some((w, mut now, regions)) = begin(&s) else { return c.discard() };
    let mut r = match start(&s.models(), &s.text()) {
        Ok(r) => r,
        Err(e) => fail!("the simulation does not start: {}", e),
    };
    compare(&w, &s, "at the start", &now, &r, &regions, loose)?;
    let steps = 1 + c.idx(4);
    let mut taken = 0;
    for i in 1..=steps {
        if r.new_decision_points.is_empty() {
            break;
        }
        // one that a component takes part in with an edge of its own, rather
        let own: Vec<usize> = (0..r.new_decision_points.len())
            .filter(|k| r.new_decision_points[*k].edges.iter().any(|e| !e.id.starts_with("input_")))
            .collect();
        let k = if own.is_empty() || c.chance(1, 5) { c.idx(r.new_decision_points.len()) } else { *c.pick(&own) };
        let d = r.new_decision_points[k].clone();
        let key = match edge_key(&s, &d) {
            Ok(k) => trim(k, loose),
            Err(m) => fail!("{}", m),
        };
        c.append(&format!("\nstep {}: {} by {:?}", i, d.action, key));
        if key.iter().any(|(i, e)| s.comps[*i].name == QUOTIENT && e.is_some()) {
            c.class("leaves a quotient");
        }
        let Some(dst) = &d.destination else { fail!("a state is missing in a decision") };
        let mut from = offers(&w, &s.tree, &now, loose).remove(&(d.action.clone(), key.clone())).unwrap_or_default().0;
        let alike = r.new_decision_points.iter().filter(|o| o.action == d.action && edge_key(&s, o).map(|k| trim(k, loose)).as_ref() == Ok(&key)).count();
        if alike > 1 {
            // one of several parts of the states that allow a step without an edge
            let k = w.max.len() as i64 + 1;
            let zone = d.source.as_ref().and_then(|x| x.zone.clone()).unwrap_or_default();
            let mut part = HashSet::new();
            for st in from {
                let Some(p) = point(&st.reg, k) else { return done(c, taken) };
                match in_zone(&w, &s, &zone, &p, k) {
                    Ok(true) => drop(part.insert(st)),
                    Ok(false) => {}
                    Err(m) => fail!("{}", m),
                }
            }
            from = part;
        }
        now.clear();
        for st in &from {
            for m in w.moves(&s.tree, st, &d.action) {
                if trim(move_key(&m), loose) == key {
                    now.extend(w.delays(&s.tree, &w.apply(st, &m)));
                }
            }
        }
        let next = match step(&s.models(), &s.text(), d.clone()) {
            Ok(n) => n,
            Err(e) => fail!("step {}: {}", i, e),
        };
        check!(next.full_state.as_ref() == Some(dst), "step {}: another state than the one that was chosen", i);
        compare(&w, &s, &format!("after step {}", i), &now, &next, &regions, loose)?;
        taken += 1;
        r = next;
    }
    done(c, taken)
}

fn done(c: &mut Case, taken: usize) -> Res {
    c.nontrivial(taken >= 2);
    c.class(match taken {
        0 => "no step",
        1 => "one step",
        2 => "two steps",
        _ => "longer",
    });
    Ok(())
}

pub fn specs() -> Vec<Spec> {
    vec![
        Spec {
            id: "S01",
            prop: first,
            quick: 16_000,
            thorough: 480_000,
            rule: "a random system of up to three components with up to three clocks, the simulation of which is started; non-trivial: at least two decisions",
            assumptions: ASSUME,
            fixed: &[],
            floors: &[("some", 10.0), ("many", 10.0)],
            threads: 8,
        },
        Spec {
            id: "S02",
            prop: walk,
            quick: 12_000,
            thorough: 360_000,
            rule: "as S01, and up to four of the decisions offered are taken, each sent back as it was received; non-trivial: at least two steps",
            assumptions: ASSUME,
            fixed: &[],
            floors: &[("two steps", 10.0), ("longer", 10.0)],
            threads: 8,
        },
        Spec {
            id: "U04",
            prop: walk_special,
            quick: 12_000,
            thorough: 360_000,
            rule: "as S02, with some locations universal or inconsistent; non-trivial: at least two steps",
            assumptions: ASSUME,
            fixed: &[],
            floors: &[("two steps", 10.0), ("longer", 10.0)],
            threads: 8,
        },
    ]
}
