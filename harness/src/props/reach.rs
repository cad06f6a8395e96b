//! Reachability: the verdict, the path that is shown, and what is refused.
use crate::backend::{ask, Answer};
use crate::model::*;
use crate::region::{Move, Reg, St, Tree, World, QUOTIENT};
use crate::systems::*;
use pbt::{check, fail, Case, Res, Spec};
use reveaal::ProtobufServer::services as pb;
use reveaal::ProtobufServer::services::query_response::Result as R;
use std::collections::{BTreeMap, BTreeSet, HashSet};

use super::verdicts::ASSUME;
const LIMIT: usize = 12_000;

/// A set of states as a query writes it.
#[derive(Clone, Debug)]
pub struct Want {
    /// Per leaf.
    pub locs: Vec<Option<usize>>,
    /// A conjunction of disjunctions of clock bounds, the clock by leaf.
    pub clocks: Vec<Vec<(usize, Atom)>>,
}

pub fn gen_want(c: &mut Case, s: &Sys, partial: bool, max: i64, atoms: u64) -> Want {
    let locs = s
        .comps
        .iter()
        .map(|m| if m.name == QUOTIENT { Some(0) } else if partial && c.chance(1, 3) { None } else { Some(c.idx(m.locs.len())) })
        .collect();
    let with_clocks: Vec<usize> = (0..s.comps.len()).filter(|i| !s.comps[*i].clocks.is_empty() && s.comps[*i].name != QUOTIENT).collect();
    let mut clocks = vec![];
    if !with_clocks.is_empty() {
        for _ in 0..c.below(atoms + 1) {
            let alternatives = if c.chance(1, 5) { 2 } else { 1 };
            clocks.push(
                (0..alternatives)
                    .map(|_| {
                        let i = *c.pick(&with_clocks);
                        (i, gen_atom(c, s.comps[i].clocks.len(), max))
                    })
                    .collect(),
            );
        }
    }
    Want { locs, clocks }
}

pub fn want_text(c: &mut Case, s: &Sys, w: &Want) -> String {
    let mut parts = vec![];
    for (i, l) in w.locs.iter().enumerate() {
        if let (Some(l), true) = (l, s.comps[i].name != QUOTIENT) {
            parts.push(format!("{}.{}", s.leaf_text(i), s.comps[i].locs[*l].id));
        }
    }
    for alts in &w.clocks {
        let t: Vec<String> = alts
            .iter()
            .map(|(i, a)| {
                let x = format!("{}.{}", s.leaf_text(*i), s.comps[*i].clocks[a.clock]);
                if c.chance(1, 5) {
                    format!("{} {} {}", a.bound, a.rel.flipped().text(), x)
                } else {
                    format!("{} {} {}", x, a.rel.text(), a.bound)
                }
            })
            .collect();
        parts.push(if t.len() > 1 { format!("({})", t.join(" || ")) } else { t[0].clone() });
    }
    c.shuffle(&mut parts);
    if parts.is_empty() {
        "true".into()
    } else {
        parts.join(" && ")
    }
}

pub fn fits(w: &World, want: &Want, locs: &[u8], reg: &Reg) -> bool {
    want.locs.iter().enumerate().all(|(i, l)| l.map_or(true, |l| locs[i] as usize == l))
        && want.clocks.iter().all(|alts| alts.iter().any(|(i, a)| reg.sat(w.offset[*i] + a.clock, a.rel, a.bound)))
}

fn raise_max(w: &mut World, want: &Want) {
    for (i, a) in want.clocks.iter().flatten() {
        let k = w.offset[*i] + a.clock;
        w.max[k] = w.max[k].max(a.bound);
    }
}

/// What a query asks, and what the reference makes of it.
pub struct Asked {
    sys: Sys,
    query: String,
    from: Option<Want>,
    to: Want,
}

fn gen_question(c: &mut Case, special: bool) -> Asked {
    let two = c.chance(1, 2);
    let sh = Shape {
        max_leaves: if two { 3 } else { 1 },
        clocks: 1 + c.idx(3),
        max_const: *c.pick(&[2, 3, 4]),
        locs: *c.pick(&[2, 3, 4, 5]),
        conjunctions: true,
        inv_pct: 40,
        any_inv: c.chance(1, 4),
    };
    let outs: &[&str] = if two { &["a", "b", "o"] } else { &["a", "b"] };
    let ins = 1 + c.idx(2);
    let mut sys = gen_sys(c, &sh, &["i", "j"][..ins], outs, "");
    if special {
        let inconsistent = !sys.tree.has_conjunction();
        for m in &mut sys.comps {
            super::special::specials(c, m, inconsistent);
        }
    }
    // the same component twice
    if sys.comps.len() == 2 && matches!(sys.tree, Tree::And(..)) && c.chance(1, 4) {
        sys.comps[1] = sys.comps[0].clone();
        let n = sys.comps[0].name.clone();
        sys.names = vec![(n.clone(), Some("1".into())), (n, Some("2".into()))];
    }
    question(c, sys, sh.max_const + 1)
}

pub fn question(c: &mut Case, sys: Sys, max: i64) -> Asked {
    let from = if c.chance(2, 3) { None } else { Some(gen_want(c, &sys, false, max, 2)) };
    let mut to = gen_want(c, &sys, true, max, 2);
    if from.is_none() && c.chance(2, 3) {
        aim(c, &sys, &mut to, max);
    }
    let f = match &from {
        None => "init".to_string(),
        Some(f) => want_text(c, &sys, f),
    };
    let query = format!("reachability: {} @ {} -> {}", sys.text(), f, want_text(c, &sys, &to));
    Asked { sys, query, from, to }
}

/// Makes the end one that some reachable state fits, a late one if possible.
fn aim(c: &mut Case, s: &Sys, to: &mut Want, max: i64) {
    let mut w = World::new(s.refs());
    for m in &mut w.max {
        *m = max;
    }
    let Some(all) = w.reachable(&s.tree, LIMIT) else { return };
    let mut all: Vec<St> = all.into_iter().collect();
    all.sort();
    let start = w.initial().locs;
    all.retain(|st| s.comps.iter().zip(&st.locs).all(|(m, l)| m.name != QUOTIENT || *l == 0));
    let moved = |st: &St| st.locs.iter().zip(&start).zip(&s.comps).all(|((a, b), m)| a != b || m.name == QUOTIENT);
    let far: Vec<St> = all.iter().filter(|st| moved(st)).cloned().collect();
    let from = if far.is_empty() { &all } else { &far };
    if from.is_empty() {
        return;
    }
    let st = c.pick(from).clone();
    for (i, l) in to.locs.iter_mut().enumerate() {
        if l.is_some() {
            *l = Some(st.locs[i] as usize);
        }
    }
    to.clocks = to
        .clocks
        .drain(..)
        .filter(|alts| alts.iter().any(|(i, a)| st.reg.sat(w.offset[*i] + a.clock, a.rel, a.bound)))
        .collect();
}

struct Known {
    /// States the search starts in, time steps not included unless it starts in the initial state.
    start: HashSet<St>,
    /// Reachable for certain, possibly reachable (if time may pass before the first step).
    sure: bool,
    maybe: bool,
}

fn reference(w: &World, q: &Asked) -> Option<Known> {
    let t = &q.sys.tree;
    let matches = |s: &St| fits(w, &q.to, &s.locs, &s.reg);
    match &q.from {
        None => {
            let init = w.initial();
            if !w.inv(t, &init) {
                return None;
            }
            let all = w.reachable(t, LIMIT)?;
            let hit = all.iter().any(matches);
            Some(Known { start: w.delays(t, &init).into_iter().collect(), sure: hit, maybe: hit })
        }
        Some(from) => {
            let locs: Vec<u8> = from.locs.iter().map(|l| l.unwrap() as u8).collect();
            let start: HashSet<St> = all_regions(&w.max, 6000)?
                .into_iter()
                .filter(|r| fits(w, from, &locs, r))
                .map(|reg| St { locs: locs.clone(), reg })
                .filter(|s| w.inv(t, s))
                .collect();
            let mut sure = start.iter().any(matches);
            let list: Vec<St> = start.iter().cloned().collect();
            let all = w.reachable_from(t, &list, LIMIT)?;
            let maybe = all.iter().any(matches);
            if maybe && !sure {
                let mut next = vec![];
                for s in &list {
                    for a in w.actions(t) {
                        for m in w.moves(t, s, &a) {
                            next.push(w.apply(s, &m));
                        }
                    }
                }
                sure = w.reachable_from(t, &next, LIMIT)?.iter().any(matches);
            }
            Some(Known { start, sure, maybe })
        }
    }
}

/// Why the query cannot be asked of this system at all, if the reference can tell.
fn setup(q: &Asked, clocks: bool) -> Option<(World<'_>, Known, bool)> {
    let mut w = World::new(q.sys.refs());
    let built = can_be_built(&w, &q.sys.tree)?;
    for x in q.from.iter().chain([&q.to]) {
        raise_max(&mut w, x);
    }
    if clocks {
        w.raise_quotient_clocks();
    }
    let k = reference(&w, q)?;
    Some((w, k, built))
}

fn verdict(c: &mut Case) -> Res {
    let q = gen_question(c, false);
    judge(c, &q)
}

/// With universal and inconsistent locations.
pub fn special_verdict(c: &mut Case) -> Res {
    if c.chance(1, 4) {
        let mut s = super::quotsim::gen(c);
        if !super::special::all_specials(c, &mut s) {
            return c.discard();
        }
        let q = question(c, s, 3);
        c.class("quotient");
        return judge(c, &q);
    }
    let q = gen_question(c, true);
    if q.sys.comps.iter().all(|m| m.locs.iter().all(|l| matches!(l.kind, LocKind::Initial | LocKind::Normal))) {
        return c.discard();
    }
    judge(c, &q)
}

pub fn judge(c: &mut Case, q: &Asked) -> Res {
    c.describe(format!("{}\n{}", q.query, q.sys.show()));
    let Some((_, k, built)) = setup(q, false) else { return c.discard() };
    let a = ask(&q.sys.models(), &q.query);
    match &a {
        Answer::No(R::Model(m)) => {
            check!(!built, "the system cannot be built: {:?}", m);
            c.class("inconsistent system");
            return Ok(());
        }
        Answer::Internal(m) => fail!("internal error: {}", m),
        Answer::Rejected(m) => fail!("rejected: {}", m),
        _ => {}
    }
    check!(built, "a conjunction in the system is inconsistent, but the query was answered");
    c.nontrivial(!k.start.iter().any(|s| fits(&World::new(q.sys.refs()), &q.to, &s.locs, &s.reg)));
    c.class(match (k.sure, k.maybe) {
        (true, _) => "reachable",
        (false, false) => "unreachable",
        _ => "depends on a delay in the start state",
    });
    check!(!k.sure || a.yes(), "reported as unreachable");
    check!(k.maybe || !a.yes(), "reported as reachable: {}", a.short());
    Ok(())
}

// ---------------------------------------------------------------- paths

fn clock_index(w: &World, s: &Sys, clock: &pb::Clock) -> Result<Option<usize>, String> {
    use pb::clock::Clock as C;
    match &clock.clock {
        Some(C::ZeroClock(_)) => Ok(None),
        Some(C::ComponentClock(k)) => {
            let inst = k.component_instance.as_ref().ok_or("no component instance")?;
            let i = inst.component_index as usize;
            if i >= s.comps.len() || s.comps[i].name != inst.component_name {
                return Err(format!("there is no component {} at {}", inst.component_name, i));
            }
            let x = s.comps[i].clocks.iter().position(|n| *n == k.clock_name).ok_or(format!("no clock {}", k.clock_name))?;
            Ok(Some(w.offset[i] + x))
        }
        // only used with one quotient
        Some(C::SystemClock(_)) if s.tree.has_quotient() => Ok(Some(w.max.len() - 1)),
        other => Err(format!("unexpected clock {:?}", other)),
    }
}

/// Is the point (in units of 1/k) in the zone of the state?
pub fn in_zone(w: &World, s: &Sys, zone: &pb::Disjunction, point: &[i64], k: i64) -> Result<bool, String> {
    for conj in &zone.conjunctions {
        let mut all = true;
        for x in &conj.constraints {
            let i = clock_index(w, s, x.x.as_ref().ok_or("no clock")?)?.map_or(0, |i| point[i]);
            let j = clock_index(w, s, x.y.as_ref().ok_or("no clock")?)?.map_or(0, |j| point[j]);
            let d = i - j;
            let b = x.c as i64 * k;
            all &= if x.strict { d < b } else { d <= b };
        }
        if all {
            return Ok(true);
        }
    }
    Ok(false)
}

pub fn leaves_of(t: &pb::LocationTree, tree: &Tree, s: &Sys, out: &mut Vec<u8>) -> Result<(), String> {
    use pb::location_tree::NodeType as N;
    match (t.node_type.as_ref(), tree) {
        (Some(N::LeafLocation(l)), Tree::Leaf(i)) => {
            let inst = l.component_instance.as_ref().ok_or("no component instance")?;
            if inst.component_index as usize != *i || inst.component_name != s.comps[*i].name {
                return Err(format!("{:?} where component {} belongs", inst, i));
            }
            out.push(s.comps[*i].locs.iter().position(|x| x.id == l.id).ok_or(format!("no location {}", l.id))? as u8);
            Ok(())
        }
        (Some(N::BinaryLocationOp(b)), Tree::Par(l, r) | Tree::And(l, r)) => {
            let want = if matches!(tree, Tree::And(..)) { 0 } else { 1 };
            if b.operator != want {
                return Err(format!("operator {} instead of {}", b.operator, want));
            }
            leaves_of(b.left.as_ref().ok_or("no left side")?, l, s, out)?;
            leaves_of(b.right.as_ref().ok_or("no right side")?, r, s, out)
        }
        other => Err(format!("unexpected location {:?}", other)),
    }
}

/// Where every component is. One that plays no role is in its first location.
pub fn locations(t: &pb::LocationTree, tree: &Tree, s: &Sys, out: &mut [u8]) -> Result<(), String> {
    use pb::location_tree::NodeType as N;
    match (t.node_type.as_ref(), tree) {
        (Some(N::SpecialLocation(k)), Tree::Quot(_, _, q)) if *k == 0 || *k == 1 => {
            out[*q] = if *k == 0 { 1 } else { 2 };
            Ok(())
        }
        (Some(N::BinaryLocationOp(b)), Tree::Par(l, r) | Tree::And(l, r) | Tree::Quot(l, r, _)) => {
            let want = match tree {
                Tree::And(..) => 0,
                Tree::Par(..) => 1,
                _ => 2,
            };
            if b.operator != want {
                return Err(format!("operator {} instead of {}", b.operator, want));
            }
            locations(b.left.as_ref().ok_or("no left side")?, l, s, out)?;
            locations(b.right.as_ref().ok_or("no right side")?, r, s, out)
        }
        (_, Tree::Leaf(i)) => {
            let mut v = vec![];
            leaves_of(t, tree, s, &mut v)?;
            out[*i] = v[0];
            Ok(())
        }
        other => Err(format!("unexpected location {:?}", other.0)),
    }
}

/// What a state shown by the server contains, compared with a set of regions of one location.
pub fn same_states(w: &World, s: &Sys, what: &str, state: &pb::State, set: &HashSet<St>, regions: &[Reg]) -> Res {
    let Some(tree) = &state.location_tree else { fail!("{}: no location", what) };
    let Some(zone) = &state.zone else { fail!("{}: no zone", what) };
    let mut locs = vec![0; s.comps.len()];
    if let Err(m) = locations(tree, &s.tree, s, &mut locs) {
        fail!("{}: {}", what, m);
    }
    let k = w.max.len() as i64 + 1;
    for r in regions {
        let Some(p) = point(r, k) else { continue };
        let inside = match in_zone(w, s, zone, &p, k) {
            Ok(b) => b,
            Err(m) => fail!("{}: {}", what, m),
        };
        let st = St { locs: locs.clone(), reg: r.clone() };
        let expected = set.contains(&st);
        check!(inside == expected, "{}: {} with clocks {} is {}in the state shown", what, locs_text(s, &st), r.show(), if inside { "" } else { "not " });
    }
    if let Some(st) = set.iter().find(|st| st.locs != locs) {
        fail!("{}: the step leads to {}", what, locs_text(s, st));
    }
    Ok(())
}

/// The edges of the components by which the step is done; for a quotient that leaves its pairs of
/// locations, or has left them, those of its parts do not count.
pub fn edge_key(s: &Sys, d: &pb::Decision) -> Result<BTreeMap<usize, Option<usize>>, String> {
    let mut key = BTreeMap::new();
    let mut places = vec![];
    for x in [&d.source, &d.destination] {
        let t = x.as_ref().and_then(|x| x.location_tree.as_ref()).ok_or("no location")?;
        let mut v = vec![0; s.comps.len()];
        locations(t, &s.tree, s, &mut v)?;
        places.push(v);
    }
    let mut gone = vec![];
    quotients(&s.tree, &mut |l, r, q| {
        if places[1][q] > 0 {
            l.leaves(&mut gone);
            r.leaves(&mut gone);
            if places[0][q] == 0 {
                key.insert(q, Some(places[1][q] as usize - 1));
            }
        }
    });
    for e in &d.edges {
        let inst = e.component_instance.as_ref().ok_or("no component instance")?;
        let i = inst.component_index as usize;
        if i >= s.comps.len() || s.comps[i].name != inst.component_name {
            return Err(format!("there is no component {} at {}", inst.component_name, i));
        }
        if gone.contains(&i) {
            continue;
        }
        // other edges are the ones that keep an input possible
        let at = s.comps[i].edges.iter().position(|x| x.id == e.id);
        if at.is_none() && !e.id.starts_with("input_") {
            return Err(format!("{} has no edge {}", inst.component_name, e.id));
        }
        if key.insert(i, at).is_some() {
            return Err(format!("two edges of component {}", i));
        }
    }
    Ok(key)
}

fn quotients(t: &Tree, f: &mut impl FnMut(&Tree, &Tree, usize)) {
    match t {
        Tree::Leaf(_) => {}
        Tree::Par(l, r) | Tree::And(l, r) => {
            quotients(l, f);
            quotients(r, f);
        }
        Tree::Quot(l, r, q) => {
            f(l, r, *q);
            quotients(l, f);
            quotients(r, f);
        }
    }
}

pub fn move_key(m: &Move) -> BTreeMap<usize, Option<usize>> {
    m.parts.iter().cloned().collect()
}

fn path(c: &mut Case) -> Res {
    let q = gen_question(c, false);
    follow(c, q)
}

/// The path that is shown, step by step.
pub fn follow(c: &mut Case, q: Asked) -> Res {
    c.describe(format!("{}\n{}", q.query, q.sys.show()));
    let Some((w, k, _)) = setup(&q, true) else { return c.discard() };
    if !k.sure {
        return c.discard();
    }
    walk_along(c, &q, w, k)
}

/// The verdict, and the path if there is one.
pub fn judge_and_follow(c: &mut Case, q: Asked) -> Res {
    judge(c, &q)?;
    match setup(&q, true) {
        Some((w, k, true)) if k.sure && all_regions(&w.max, 6000).is_some() => walk_along(c, &q, w, k),
        _ => Ok(()),
    }
}

fn walk_along(c: &mut Case, q: &Asked, w: World, k: Known) -> Res {
    let p = match ask(&q.sys.models(), &q.query) {
        Answer::Yes(Some(R::ReachabilityPath(p))) => p.path.map(|p| p.decisions).unwrap_or_default(),
        Answer::No(R::Model(_)) => return c.discard(),
        other => fail!("no path: {}", other.short()),
    };
    let Some(regions) = all_regions(&w.max, 6000) else { return c.discard() };
    let (s, t) = (&q.sys, &q.sys.tree);
    c.class(match p.len() {
        0 => "no step",
        1 => "one step",
        2 => "two steps",
        _ => "longer",
    });
    c.nontrivial(p.len() >= 2);
    let mut now = k.start;
    for (i, d) in p.iter().enumerate() {
        let what = format!("step {}", i + 1);
        let (Some(source), Some(dest)) = (&d.source, &d.destination) else { fail!("{}: a state is missing", what) };
        check!(w.actions(t).contains(&d.action), "{}: there is no action {:?}", what, d.action);
        let key = match edge_key(s, d) {
            Ok(k) => k,
            Err(m) => fail!("{}: {}", what, m),
        };
        let mut from = HashSet::new();
        let mut to = HashSet::new();
        for st in &now {
            for m in w.moves(t, st, &d.action) {
                if move_key(&m) == key {
                    from.insert(st.clone());
                    to.extend(w.delays(t, &w.apply(st, &m)));
                }
            }
        }
        check!(!from.is_empty(), "{}: {} by {:?} cannot be done here", what, d.action, key);
        same_states(&w, s, &format!("{}, source", what), source, &from, &regions)?;
        same_states(&w, s, &format!("{}, destination", what), dest, &to, &regions)?;
        now = to;
    }
    check!(now.iter().any(|st| fits(&w, &q.to, &st.locs, &st.reg)), "the path does not end in a state that was asked for");
    Ok(())
}

// ---------------------------------------------------------------- refused

fn refused(c: &mut Case) -> Res {
    let q = gen_question(c, false);
    let s = &q.sys;
    let sys = s.text();
    let i = c.idx(s.comps.len());
    let name = s.leaf_text(i);
    let start: String = {
        let w = gen_want(c, s, false, 3, 1);
        want_text(c, s, &w)
    };
    let end: String = {
        let w = gen_want(c, s, true, 3, 1);
        want_text(c, s, &w)
    };
    let in_start = c.chance(1, 2);
    let loc = |k: usize| s.comps[i].locs[k % s.comps[i].locs.len()].id.clone();
    let (kind, bad) = match c.below(9) {
        0 => ("unknown location", format!("{}.Nowhere", name)),
        1 => ("unknown clock", format!("{}.nothing < 3", name)),
        2 => ("unknown component", "Zz.L0".to_string()),
        3 => ("unknown component", "Zz.x < 3".to_string()),
        4 => ("unknown instance", format!("{}[q].L0", s.names[i].0)),
        5 => ("negated location", format!("(!{}.{})", name, loc(0))),
        6 => ("disjunction of locations", {
            let l = loc(c.idx(3));
            let r = if c.chance(1, 2) { format!("{}.{}", name, loc(c.idx(3))) } else { "true".into() };
            if c.chance(1, 2) { format!("({}.{} || {})", name, l, r) } else { format!("({} || {}.{})", r, name, l) }
        }),
        7 if s.comps[i].locs.len() > 1 => ("two locations of one component", format!("{}.{} && {}.{}", name, loc(0), name, loc(1))),
        _ => {
            // a start state that leaves a component's location open
            let mut w = gen_want(c, s, false, 3, 1);
            w.locs[i] = None;
            let text = want_text(c, s, &w);
            let query = format!("reachability: {} @ {} -> {}", sys, text, end);
            c.describe(format!("{}\n{}", query, s.show()));
            c.class("partial start");
            return expect_refusal(c, s, &query);
        }
    };
    let join = |good: &str| if good == "true" { bad.clone() } else { format!("{} && {}", good, bad) };
    let query = if in_start {
        format!("reachability: {} @ {} -> {}", sys, join(&start), end)
    } else {
        let from = if c.chance(1, 2) { "init".to_string() } else { start };
        format!("reachability: {} @ {} -> {}", sys, from, join(&end))
    };
    c.describe(format!("{}\n{}", query, s.show()));
    c.class(kind);
    expect_refusal(c, s, &query)
}

fn expect_refusal(c: &mut Case, s: &Sys, query: &str) -> Res {
    let w = World::new(s.refs());
    match can_be_built(&w, &s.tree) {
        Some(true) => {}
        _ => return c.discard(),
    }
    c.nontrivial(true);
    if s.comps.iter().enumerate().any(|(i, _)| !w.inv_comp(i, &w.initial())) {
        return c.discard();
    }
    match ask(&s.models(), query) {
        Answer::Rejected(_) => Ok(()),
        other => fail!("not refused, but {}", other.short()),
    }
}

pub fn specs() -> Vec<Spec> {
    let _ = BTreeSet::<u8>::new();
    vec![
        Spec {
            id: "P01",
            prop: verdict,
            quick: 16_000,
            thorough: 480_000,
            rule: "a random system of up to three components (compositions, conjunctions, the same component twice) with up to three clocks, the initial or a given start state and a possibly partial end state with clock bounds; non-trivial: the start state itself is not an answer",
            assumptions: ASSUME,
            fixed: &[],
            floors: &[("reachable", 20.0), ("unreachable", 8.0)],
            threads: 8,
        },
        Spec {
            id: "P02",
            prop: path,
            quick: 20_000,
            thorough: 500_000,
            rule: "as P01, where the end is reachable; every step of the path is followed in the reference; non-trivial: at least two steps",
            assumptions: ASSUME,
            fixed: &[],
            floors: &[("one step", 5.0), ("two steps", 2.0), ("longer", 0.3)],
            threads: 8,
        },
        Spec {
            id: "P03",
            prop: refused,
            quick: 12_000,
            thorough: 360_000,
            rule: "a well-formed reachability query over a random system, with one name or combination that has no meaning; every case counts",
            assumptions: ASSUME,
            fixed: &[],
            floors: &[("partial start", 5.0), ("unknown location", 5.0), ("disjunction of locations", 5.0)],
            threads: 8,
        },
    ]
}
