//! Laws that relate answers to each other. No reference: the models may be larger.
use crate::backend::{ask, Answer};
use crate::model::*;
use crate::region::Tree;
use crate::systems::*;
use pbt::{check, fail, Case, Res, Spec};
use reveaal::ProtobufServer::services::query_response::Result as R;

use super::composite::vary;
use super::verdicts::own_overlap;

const ASSUME: &[&str] = &["the stand-in crates in stubs/ behave like the originals (own zone library in place of EDBM)"];

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Verdict {
    Yes,
    No,
    /// The system cannot be built.
    Model,
    /// The initial state violates an invariant.
    NoStart,
}

fn verdict(comps: &[&Comp], q: &str) -> Result<Verdict, pbt::Stop> {
    Ok(match ask(comps, q) {
        Answer::Yes(_) => Verdict::Yes,
        Answer::No(R::Model(_)) => Verdict::Model,
        Answer::No(_) => Verdict::No,
        Answer::Rejected(m) if m.contains("No start state") => Verdict::NoStart,
        other => fail!("{}: {}", q, other.short()),
    })
}

fn shape(c: &mut Case, leaves: usize) -> Shape {
    Shape {
        max_leaves: leaves,
        clocks: 1 + c.idx(2),
        max_const: *c.pick(&[2, 4, 7, 12]),
        locs: *c.pick(&[2, 3, 4, 5]),
        conjunctions: true,
        inv_pct: 40,
        any_inv: c.chance(1, 4),
    }
}

/// A bound in a reachability query: leaf, clock, relation and constant.
type Bound = (usize, Atom);

struct Goal {
    locs: Vec<Option<usize>>,
    bounds: Vec<Bound>,
}

fn goal(c: &mut Case, s: &Sys, max: i64) -> Goal {
    let locs = s.comps.iter().map(|m| c.chance(1, 2).then(|| c.idx(m.locs.len()))).collect();
    let with: Vec<usize> = (0..s.comps.len()).filter(|i| !s.comps[*i].clocks.is_empty()).collect();
    let mut bounds = vec![];
    if !with.is_empty() {
        for _ in 0..c.below(3) {
            let i = *c.pick(&with);
            bounds.push((i, gen_atom(c, s.comps[i].clocks.len(), max)));
        }
    }
    Goal { locs, bounds }
}

fn goal_text(s: &Sys, g: &Goal) -> String {
    let mut parts = vec![];
    for (i, l) in g.locs.iter().enumerate() {
        if let Some(l) = l {
            parts.push(format!("{}.{}", s.leaf_text(i), s.comps[i].locs[*l].id));
        }
    }
    for (i, a) in &g.bounds {
        parts.push(format!("{}.{} {} {}", s.leaf_text(*i), s.comps[*i].clocks[a.clock], a.rel.text(), a.bound));
    }
    if parts.is_empty() {
        "true".into()
    } else {
        parts.join(" && ")
    }
}

fn reach(s: &Sys, g: &Goal) -> String {
    format!("reachability: {} @ init -> {}", s.text(), goal_text(s, g))
}

fn join(l: &Sys, r: &Sys, and: bool) -> Sys {
    let n = l.comps.len();
    let (a, b) = (Box::new(l.tree.clone()), Box::new(super::composite::shift(&r.tree, n)));
    Sys {
        comps: l.comps.iter().chain(&r.comps).cloned().collect(),
        names: l.names.iter().chain(&r.names).cloned().collect(),
        tree: if and { Tree::And(a, b) } else { Tree::Par(a, b) },
    }
}

/// Two systems, the second mostly a variation of the first.
fn pair(c: &mut Case) -> (Sys, Sys, i64) {
    let sh = shape(c, 3);
    let ins: &[&str] = if c.chance(1, 2) { &["i"] } else { &["i", "j"] };
    let s = gen_sys(c, &sh, ins, &["a", "b"], "S");
    let t = if c.chance(1, 6) { gen_sys(c, &sh, ins, &["a", "b"], "T") } else { vary(c, &s, sh.max_const) };
    let mut s = s;
    if c.chance(1, 8) {
        // a choice
        let i = c.idx(s.comps.len());
        let m = &mut s.comps[i];
        if !m.edges.is_empty() {
            let mut e = c.pick(&m.edges).clone();
            e.id = "Ec".into();
            e.tgt = c.idx(m.locs.len());
            m.edges.push(e);
        }
    }
    (s, t, sh.max_const)
}

fn all<'a>(s: &'a Sys, t: &'a Sys) -> Vec<&'a Comp> {
    s.comps.iter().chain(&t.comps).collect()
}

fn overlap(s: &Sys) -> bool {
    s.comps.iter().any(own_overlap)
}

/// Compares the answers about `s` and `t` with those about `s2` and `t2`.
/// `finer`: they have the same states, but are explored in smaller pieces. `tighter`: the guards of
/// the new ones leave out what invariants exclude.
fn same(c: &mut Case, old: (&Sys, &Sys, &Goal), new: (&Sys, &Sys, &Goal), finer: bool, tighter: bool) -> Res {
    let det = !overlap(old.0) && !overlap(old.1);
    // consistency is decided for each piece as a whole: some output has to be possible somewhere in it
    let mut all_consistent = true;
    let mut all_built = true;
    if finer {
        for (s, t) in [(old.0, old.1), (new.0, new.1)] {
            for x in [s, t] {
                let v = verdict(&all(s, t), &format!("consistency: {}", x.text()))?;
                all_consistent &= v == Verdict::Yes;
                all_built &= v != Verdict::Model;
            }
        }
    }
    let queries = |s: &Sys, t: &Sys, g: &Goal| {
        vec![
            format!("consistency: {}", s.text()),
            format!("determinism: {}", s.text()),
            format!("refinement: {} <= {}", s.text(), t.text()),
            reach(s, g),
        ]
    };
    let (a, b) = (queries(old.0, old.1, old.2), queries(new.0, new.1, new.2));
    for (i, (x, y)) in a.iter().zip(&b).enumerate() {
        // a choice between steps is judged by the search order
        if !det && (i == 0 || i == 2) {
            continue;
        }
        if finer && (!all_built || !all_consistent && (i == 0 || i == 2)) {
            continue;
        }
        let (v, w) = (verdict(&all(old.0, old.1), x)?, verdict(&all(new.0, new.1), y)?);
        // the determinism check follows edges that invariants disable
        if tighter && i == 1 && v == Verdict::No {
            continue;
        }
        check!(v == w, "{}: {:?}, but {}: {:?}", x, v, y, w);
        c.class(&format!("{} {:?}", x.split(':').next().unwrap(), v));
    }
    Ok(())
}

fn rich(s: &Sys) -> bool {
    s.comps.iter().any(|m| !m.clocks.is_empty() && m.edges.iter().any(|e| !e.guard.is_empty()))
}

// ---------------------------------------------------------------- the unit of time

fn scale(s: &Sys, k: i64) -> Sys {
    let mut comps = s.comps.clone();
    for m in &mut comps {
        m.locs.iter_mut().flat_map(|l| &mut l.inv).for_each(|a| a.bound *= k);
        for e in &mut m.edges {
            e.guard.iter_mut().flatten().for_each(|a| a.bound *= k);
            e.resets.iter_mut().for_each(|r| r.1 *= k);
        }
    }
    Sys { comps, tree: s.tree.clone(), names: s.names.clone() }
}

fn units(c: &mut Case) -> Res {
    let (s, t, max) = pair(c);
    let g = goal(c, &s, max);
    let k = match c.below(4) {
        0 => 2,
        1 => c.range(3, 10),
        2 => c.range(10, 1000),
        _ => *c.pick(&[50, 128, 256, 1000, 10_000]),
    };
    c.describe(format!("{}, all constants times {}\n{}\n{}", reach(&s, &g), k, s.show(), t.show()));
    c.nontrivial(rich(&s));
    let g2 = Goal {
        locs: g.locs.clone(),
        bounds: g.bounds.iter().map(|(i, a)| (*i, Atom { bound: a.bound * k, ..*a })).collect(),
    };
    same(c, (&s, &t, &g), (&scale(&s, k), &scale(&t, k), &g2), false, false)
}

// ---------------------------------------------------------------- rewriting

/// Rewrites one thing without changing what the component does.
fn rewrite(c: &mut Case, m: &mut Comp, keep: &[usize], max: i64) -> Option<&'static str> {
    let clocks = m.clocks.len();
    let fresh = |m: &Comp, p: &str| (0..).map(|k| format!("{}{}", p, k)).find(|n| !m.edges.iter().any(|e| e.id == *n) && !m.locs.iter().any(|l| l.id == *n)).unwrap();
    match c.below(9) {
        // the invariant of the source, repeated in a guard
        0 if !m.edges.is_empty() => {
            let i = c.idx(m.edges.len());
            let inv = m.locs[m.edges[i].src].inv.clone();
            if inv.is_empty() {
                return None;
            }
            let e = &mut m.edges[i];
            if e.guard.is_empty() {
                e.guard.push(vec![]);
            }
            for d in &mut e.guard {
                d.extend(&inv);
            }
            Some("invariant in guard")
        }
        // one edge as two
        1 | 2 if !m.edges.is_empty() && clocks > 0 => {
            let i = c.idx(m.edges.len());
            let a = gen_atom(c, clocks, max);
            let (l, r) = if c.chance(1, 2) { (Rel::Lt, Rel::Ge) } else { (Rel::Le, Rel::Gt) };
            let mut e = m.edges[i].clone();
            e.id = fresh(m, "Ex");
            for (e, rel) in [(&mut e, l), (&mut m.edges[i], r)] {
                if e.guard.is_empty() {
                    e.guard.push(vec![]);
                }
                for d in &mut e.guard {
                    d.push(Atom { rel, ..a });
                }
            }
            let at = c.idx(m.edges.len() + 1);
            m.edges.insert(at, e);
            Some("split edge")
        }
        // a location with a double
        3 | 4 => {
            let i = c.idx(m.locs.len());
            if keep.contains(&i) {
                return None;
            }
            let mut l = m.locs[i].clone();
            l.id = fresh(m, "Lx");
            l.kind = LocKind::Normal;
            let n = m.locs.len();
            m.locs.push(l);
            let out: Vec<Edge> = m.edges.iter().filter(|e| e.src == i).cloned().collect();
            for e in &mut m.edges {
                if e.tgt == i && c.chance(1, 2) {
                    e.tgt = n;
                }
            }
            for mut e in out {
                e.id = fresh(m, "Ex");
                e.src = n;
                if e.tgt == i && c.chance(1, 2) {
                    e.tgt = n;
                }
                m.edges.push(e);
            }
            Some("double of a location")
        }
        // something that is never reached
        5 if !m.edges.is_empty() => {
            let n = m.locs.len();
            let inv = if clocks > 0 { gen_inv(c, clocks, max) } else { vec![] };
            m.locs.push(Loc { id: fresh(m, "Lx"), kind: LocKind::Normal, inv });
            let mut seen: Vec<(bool, String)> = m.edges.iter().map(|e| (e.input, e.action.clone())).collect();
            seen.sort();
            seen.dedup();
            for (input, action) in seen {
                if c.chance(1, 2) {
                    let id = fresh(m, "Ex");
                    let tgt = c.idx(n + 1);
                    m.edges.push(Edge { id, src: n, tgt, input, action, guard: vec![], resets: vec![] });
                }
            }
            Some("unreachable location")
        }
        // an edge that is never enabled
        6 if !m.edges.is_empty() && clocks > 0 => {
            let e = c.pick(&m.edges).clone();
            let (x, k) = (c.idx(clocks), c.range(0, max));
            let id = fresh(m, "Ex");
            let (src, tgt) = (c.idx(m.locs.len()), c.idx(m.locs.len()));
            let guard = vec![vec![Atom { clock: x, rel: Rel::Gt, bound: k }, Atom { clock: x, rel: *c.pick(&[Rel::Lt, Rel::Le]), bound: k }]];
            m.edges.push(Edge { id, src, tgt, guard, ..e });
            Some("edge that is never enabled")
        }
        // an input that is ignored, ignored explicitly
        7 => {
            let i = c.idx(m.locs.len());
            let inputs = m.inputs();
            if inputs.is_empty() {
                return None;
            }
            let action = c.pick(&inputs).clone();
            if m.edges.iter().any(|e| e.src == i && e.input && e.action == action) {
                return None;
            }
            let id = fresh(m, "Ex");
            m.edges.push(Edge { id, src: i, tgt: i, input: true, action, guard: vec![], resets: vec![] });
            Some("explicit loop")
        }
        // a disjunct that adds nothing
        _ if !m.edges.is_empty() && clocks > 0 => {
            let i = c.idx(m.edges.len());
            let a = gen_atom(c, clocks, max);
            let e = &mut m.edges[i];
            if e.guard.is_empty() {
                return None;
            }
            let mut d = c.pick(&e.guard).clone();
            d.push(a);
            if c.chance(1, 2) {
                e.guard.push(d);
            } else {
                e.guard.insert(0, d);
            }
            Some("redundant disjunct")
        }
        _ => None,
    }
}

fn rewriting(c: &mut Case) -> Res {
    let (s, t, max) = pair(c);
    let g = goal(c, &s, max);
    c.describe(format!("{}\n{}\n{}", reach(&s, &g), s.show(), t.show()));
    let copy = |s: &Sys| Sys { comps: s.comps.clone(), tree: s.tree.clone(), names: s.names.clone() };
    let (mut s2, mut t2) = (copy(&s), copy(&t));
    let n = 1 + c.below(4);
    let (mut done, mut finer, mut tighter) = (0, false, false);
    for _ in 0..n {
        let left = c.chance(2, 3);
        let sys = if left { &mut s2 } else { &mut t2 };
        let i = c.idx(sys.comps.len());
        let keep: Vec<usize> = if left { g.locs[i].into_iter().collect() } else { vec![] };
        if let Some(what) = rewrite(c, &mut sys.comps[i], &keep, max) {
            c.class(what);
            finer |= what == "split edge";
            tighter |= what == "invariant in guard";
            done += 1;
        }
    }
    c.append(&format!("\nrewritten:\n{}\n{}", s2.show(), t2.show()));
    c.nontrivial(done > 0 && rich(&s));
    if done == 0 {
        return c.discard();
    }
    same(c, (&s, &t, &g), (&s2, &t2, &g), finer, tighter)
}

// ---------------------------------------------------------------- laws of refinement

fn named(s: &Sys, prefix: &str) -> Sys {
    let mut comps = s.comps.clone();
    for (i, m) in comps.iter_mut().enumerate() {
        m.name = format!("{}{}", prefix, i);
    }
    let names = comps.iter().map(|m| (m.name.clone(), None)).collect();
    Sys { comps, tree: s.tree.clone(), names }
}

fn one(c: &mut Case, sh: &Shape, clocks: usize, name: &str, ins: &[&str], outs: &[&str]) -> Sys {
    let mut p = Params::new(ins, outs);
    p.clocks = c.idx(clocks + 1);
    p.locs = sh.locs;
    p.max_const = sh.max_const;
    p.progress = c.chance(3, 4);
    let mut m = gen_comp(c, name, &p);
    fill_alphabet(&mut m, &p);
    Sys { comps: vec![m], tree: Tree::Leaf(0), names: vec![(name.to_string(), None)] }
}

fn variation(c: &mut Case, s: &Sys, prefix: &str, max: i64) -> Sys {
    let v = vary(c, s, max);
    let mut v = named(&v, prefix);
    // the alphabets stay
    for (m, old) in v.comps.iter_mut().zip(&s.comps) {
        let p = Params { inputs: old.inputs(), outputs: old.outputs(), ..Params::new(&[], &[]) };
        fill_alphabet(m, &p);
    }
    v
}

fn laws(c: &mut Case) -> Res {
    let law = c.below(8);
    let mut sh = shape(c, 2);
    // the number of symbolic states grows fast with the clocks of a conjunction
    let clocks = if [0, 3, 4, 5, 6].contains(&law) { 1 + c.chance(1, 6) as usize } else { 2 };
    if clocks == 2 && law < 7 {
        sh.max_const = sh.max_const.min(4);
        sh.locs = sh.locs.min(3);
    }
    if law == 6 {
        sh.locs = sh.locs.min(3);
    }
    let clocks = if law == 6 { 1 } else { clocks };
    let (ins, outs) = (&["i"], &["a", "b"]);
    let a = one(c, &sh, clocks, "A0", ins, outs);
    let b = variation(c, &a, "B", sh.max_const);
    let third = if c.chance(1, 2) { variation(c, &b, "C", sh.max_const) } else { variation(c, &a, "C", sh.max_const) };
    // listens to what the others do, and has an output of its own
    let own = c.chance(1, 2);
    let d = one(c, &sh, clocks.min(1 + (law == 7) as usize), "D0", if own { &["i", "a"] } else { &["a", "b"] }, &["o"]);
    let systems = [&a, &b, &third, &d];
    let comps: Vec<&Comp> = systems.iter().flat_map(|s| &s.comps).collect();
    let names = ["reflexive", "transitive", "conjunction below", "conjunction greatest", "monotone", "commutative", "associative", "reachability of a part"];
    c.describe(format!("{}\n{}", names[law as usize], comps.iter().map(|m| m.show()).collect::<Vec<_>>().join("\n")));
    if systems.iter().any(|s| overlap(s)) {
        return c.discard();
    }
    for s in systems {
        if verdict(&comps, &format!("consistency: {}", s.text()))? != Verdict::Yes {
            return c.discard();
        }
    }
    let ask = |l: &str, r: &str| verdict(&comps, &format!("refinement: {} <= {}", l, r));
    let builds = |s: &str| -> Result<bool, pbt::Stop> { Ok(verdict(&comps, &format!("consistency: {}", s))? == Verdict::Yes) };
    c.class(names[law as usize]);
    match law {
        0 => {
            let s = c.pick(&["A0", "A0 || D0", "A0 && B0", "(A0 && B0) || D0", "(A0 || D0) && (B0 || D0)"]).to_string();
            if !builds(&s)? {
                return c.discard();
            }
            c.nontrivial(rich(&a));
            check!(ask(&s, &s)? == Verdict::Yes, "{} does not refine itself", s);
        }
        1 => {
            let (x, y, z) = (ask("A0", "B0")?, ask("B0", "C0")?, ask("A0", "C0")?);
            c.nontrivial(x == Verdict::Yes && y == Verdict::Yes && rich(&a));
            check!(x == Verdict::No || y == Verdict::No || z == Verdict::Yes, "A0 <= B0 and B0 <= C0, but not A0 <= C0");
        }
        2 => {
            if !builds("A0 && B0")? {
                return c.discard();
            }
            c.nontrivial(rich(&a));
            for s in ["A0", "B0"] {
                check!(ask("A0 && B0", s)? == Verdict::Yes, "A0 && B0 does not refine {}", s);
            }
        }
        3 => {
            if !builds("A0 && B0")? {
                return c.discard();
            }
            let (x, y, z) = (ask("C0", "A0")?, ask("C0", "B0")?, ask("C0", "A0 && B0")?);
            c.nontrivial(rich(&a));
            c.class(if z == Verdict::Yes { "refines both" } else { "refines not both" });
            check!(
                (x == Verdict::Yes && y == Verdict::Yes) == (z == Verdict::Yes),
                "C0 <= A0: {:?}, C0 <= B0: {:?}, but C0 <= A0 && B0: {:?}", x, y, z
            );
        }
        4 => {
            let x = ask("A0", "B0")?;
            let and = c.chance(1, 3);
            let (l, r) = if and { ("A0 && C0", "B0 && C0") } else { ("A0 || D0", "B0 || D0") };
            if and && (!builds(l)? || !builds(r)?) {
                return c.discard();
            }
            c.nontrivial(x == Verdict::Yes && rich(&a));
            check!(x == Verdict::No || ask(l, r)? == Verdict::Yes, "A0 <= B0, but not {} <= {}", l, r);
        }
        5 => {
            let (l, r) = *c.pick(&[("A0 || D0", "D0 || A0"), ("A0 && B0", "B0 && A0"), ("(A0 && B0) || D0", "D0 || (B0 && A0)")]);
            if builds(l)? != builds(r)? {
                fail!("only one of {} and {} can be built", l, r);
            }
            if !builds(l)? {
                return c.discard();
            }
            c.nontrivial(rich(&a));
            check!(ask(l, r)? == Verdict::Yes, "{} does not refine {}", l, r);
            check!(ask(r, l)? == Verdict::Yes, "{} does not refine {}", r, l);
            let (x, y) = (ask("C0", l)?, ask("C0", r)?);
            check!(x == y, "C0 <= {}: {:?}, C0 <= {}: {:?}", l, x, r, y);
        }
        6 => {
            let (l, r) = ("(A0 && B0) && C0", "A0 && (B0 && C0)");
            let (x, y) = (builds(l)?, builds(r)?);
            if !x || !y {
                return c.discard();
            }
            c.nontrivial(rich(&a));
            check!(ask(l, r)? == Verdict::Yes, "{} does not refine {}", l, r);
            check!(ask(r, l)? == Verdict::Yes, "{} does not refine {}", r, l);
        }
        _ => {
            // what a composition can do, its parts can do
            let l = join(&a, &d, false);
            let and = c.chance(1, 3);
            let l = if and { join(&a, &b, true) } else { l };
            let mut g = goal(c, &l, sh.max_const);
            let keep = c.idx(2);
            let whole = verdict(&comps, &reach(&l, &g))?;
            if whole == Verdict::Model {
                return c.discard();
            }
            let part = if keep == 0 { &a } else if and { &b } else { &d };
            let loc = g.locs[keep];
            g.locs = vec![loc];
            g.bounds.retain(|x| x.0 == keep);
            g.bounds.iter_mut().for_each(|x| x.0 = 0);
            let q = reach(part, &g);
            let alone = verdict(&comps, &q)?;
            c.nontrivial(rich(part) && alone == Verdict::Yes);
            c.class(if whole == Verdict::Yes { "reachable in the whole" } else { "not reachable in the whole" });
            check!(whole == Verdict::No || alone == Verdict::Yes, "reachable in {}, but not: {}", l.text(), q);
        }
    }
    Ok(())
}

pub fn specs() -> Vec<Spec> {
    let floors: &[(&str, f64)] = &[
        ("refinement Yes", 3.0), ("refinement No", 3.0), ("consistency No", 1.0), ("determinism No", 0.5),
        ("reachability Yes", 10.0), ("reachability No", 3.0), ("consistency Model", 0.5),
    ];
    vec![
        Spec {
            id: "M05",
            prop: units,
            quick: 10_000,
            thorough: 300_000,
            rule: "two random systems of up to three components and constants up to 12, all constants then multiplied by up to 10 000; non-trivial: a component of the first has clocks and guards",
            assumptions: ASSUME,
            fixed: &[],
            floors,
            threads: 8,
        },
        Spec {
            id: "M06",
            prop: rewriting,
            quick: 10_000,
            thorough: 300_000,
            rule: "two random systems of up to three components, up to four rewritings of edges and locations that keep their behaviour; non-trivial: something was rewritten, and a component has clocks and guards",
            assumptions: ASSUME,
            fixed: &[],
            floors,
            threads: 8,
        },
        Spec {
            id: "L02",
            prop: laws,
            quick: 20_000,
            thorough: 600_000,
            rule: "four random components, three of them variations of one, consistent and without overlapping edges, and one law; non-trivial: the law's premise holds, and the first component has clocks and guards",
            assumptions: ASSUME,
            fixed: &[],
            floors: &[
                ("reflexive", 3.0), ("transitive", 3.0), ("conjunction below", 1.0), ("conjunction greatest", 1.0), ("monotone", 3.0),
                ("commutative", 2.0), ("associative", 0.5), ("reachability of a part", 3.0), ("refines both", 0.3),
            ],
            threads: 8,
        },
    ]
}
