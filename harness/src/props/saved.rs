//! get-component: the component that is made of a system.
use crate::backend::{ask_info, json_info, texts, Answer};
use crate::systems::*;
use crate::region::World;
use std::collections::BTreeSet;
use crate::model::*;
use crate::region::{Tree, QUOTIENT};
use serde_json::Value;
use pbt::{check, fail, Case, Res, Spec};
use reveaal::ProtobufServer::services as pb;
use reveaal::ProtobufServer::services::query_response::refinement_failure::Failure;
use reveaal::ProtobufServer::services::query_response::Result as R;

use super::verdicts::ASSUME;

fn component_text(a: &Answer) -> Option<String> {
    match a {
        Answer::Yes(Some(R::Component(c))) => match &c.rep {
            Some(pb::component::Rep::Json(t)) => Some(t.clone()),
            _ => None,
        },
        _ => None,
    }
}

/// Reads a component that was made. None: it uses constraints the reference does not have.
pub fn read_back(v: &Value) -> Result<Option<Comp>, String> {
    let text = |v: &Value| v.as_str().map(str::to_string).ok_or(format!("{} is not a text", v));
    let decl = text(&v["declarations"])?;
    let clocks: Vec<String> = decl
        .trim_start_matches("clock ")
        .trim_end_matches(';')
        .split(',')
        .map(|c| c.trim().to_string())
        .filter(|c| !c.is_empty())
        .collect();
    let mut locs = vec![];
    for l in v["locations"].as_array().ok_or("no locations")? {
        let kind = match l["type"].as_str() {
            Some("NORMAL") => LocKind::Normal,
            Some("INITIAL") => LocKind::Initial,
            Some("UNIVERSAL") => LocKind::Universal,
            Some("INCONSISTENT") => LocKind::Inconsistent,
            _ => return Err(format!("location type {}", l["type"])),
        };
        let inv = match read_guard(&text(&l["invariant"])?, &clocks)? {
            Some(g) if g.len() <= 1 => g.into_iter().next().unwrap_or_default(),
            _ => return Ok(None),
        };
        locs.push(Loc { id: text(&l["id"])?, kind, inv });
    }
    let at = |v: &Value| -> Result<usize, String> {
        let id = text(v)?;
        locs.iter().position(|l| l.id == id).ok_or(format!("no location {}", id))
    };
    let mut edges = vec![];
    for e in v["edges"].as_array().ok_or("no edges")? {
        let Some(guard) = read_guard(&text(&e["guard"])?, &clocks)? else { return Ok(None) };
        let mut resets = vec![];
        for u in text(&e["update"])?.split(',').filter(|u| !u.trim().is_empty()) {
            let (x, n) = u.split_once('=').ok_or(format!("update {}", u))?;
            let x = clocks.iter().position(|c| c == x.trim()).ok_or(format!("update {}: no such clock", u))?;
            resets.push((x, n.trim().parse().map_err(|_| format!("update {}", u))?));
        }
        edges.push(Edge {
            id: text(&e["id"])?,
            src: at(&e["sourceLocation"])?,
            tgt: at(&e["targetLocation"])?,
            input: e["status"] == "INPUT",
            action: text(&e["sync"])?,
            guard,
            resets,
        });
    }
    let ids: BTreeSet<&String> = locs.iter().map(|l| &l.id).collect();
    if ids.len() != locs.len() {
        return Err("two locations of one name".into());
    }
    Ok(Some(Comp { name: text(&v["name"])?, clocks, locs, edges, stars: false }))
}

/// A disjunction of conjunctions of bounds. None: there are other constraints.
fn read_guard(t: &str, clocks: &[String]) -> Result<Option<Vec<Vec<Atom>>>, String> {
    if t.trim().is_empty() {
        return Ok(Some(vec![]));
    }
    let t: String = t.chars().filter(|c| !c.is_whitespace() && *c != '(' && *c != ')').collect();
    let mut out = vec![];
    for part in t.split("||") {
        let mut conj = vec![];
        for a in part.split("&&").filter(|a| *a != "true") {
            if a == "false" {
                if clocks.is_empty() {
                    return Ok(None);
                }
                conj.push(Atom { clock: 0, rel: Rel::Lt, bound: 0 });
                continue;
            }
            let (at, op, rel) = [("<=", Rel::Le), (">=", Rel::Ge), ("==", Rel::Eq), ("<", Rel::Lt), (">", Rel::Gt)]
                .into_iter()
                .find_map(|(op, rel)| a.find(op).map(|at| (at, op, rel)))
                .ok_or(format!("no constraint: {}", a))?;
            let (l, r) = (&a[..at], &a[at + op.len()..]);
            let clock = |n: &str| clocks.iter().position(|c| c == n);
            let atom = match (clock(l), l.parse(), clock(r), r.parse()) {
                (Some(clock), _, _, Ok(bound)) => Atom { clock, rel, bound },
                (_, Ok(bound), Some(clock), _) => Atom { clock, rel: rel.flipped(), bound },
                _ if l.contains('-') || r.contains('-') || clock(l).is_some() && clock(r).is_some() => return Ok(None),
                _ => return Err(format!("no constraint: {}", a)),
            };
            conj.push(atom);
        }
        out.push(conj);
    }
    Ok(Some(out))
}

/// Other names of clocks, which the components may share.
fn name_clocks(c: &mut Case, s: &mut Sys) {
    for i in 0..s.comps.len() {
        let mut pool: Vec<&str> = ["x", "x1", "x2", "x12", "y"][..4 + c.idx(2)].to_vec();
        c.shuffle(&mut pool);
        for k in 0..s.comps[i].clocks.len() {
            s.comps[i].clocks[k] = pool[k].into();
        }
        if let Some(j) = (0..i).find(|j| s.comps[*j].name == s.comps[i].name) {
            s.comps[i].clocks = s.comps[j].clocks.clone();
        }
    }
}

fn made(c: &mut Case) -> Res {
    same_behaviour(c, "get-component")
}

fn pruned(c: &mut Case) -> Res {
    same_behaviour(c, "prune")
}

fn same_behaviour(c: &mut Case, how: &str) -> Res {
    let mut s = super::simulate::gen_walkable(c, 2);
    if c.chance(1, 3) {
        name_clocks(c, &mut s);
    }
    let mut special = false;
    if c.chance(1, 4) {
        let inc = how != "prune" && !s.tree.has_conjunction();
        for i in 0..s.comps.len() {
            match s.names[..i].iter().position(|n| n.0 == s.names[i].0) {
                Some(j) => s.comps[i] = s.comps[j].clone(),
                None => special |= super::special::specials(c, &mut s.comps[i], inc),
            }
        }
    }
    let reduce = c.chance(1, 2);
    let query = format!("{}: {} save-as Made", how, s.text());
    c.describe(format!("{}\n{}\nclock reduction: {}", query, s.show(), reduce));
    let w = World::new(s.refs());
    if can_be_built(&w, &s.tree) != Some(true) || !w.inv(&s.tree, &w.initial()) {
        return c.discard();
    }
    let Some(sound) = w.consistent(&s.tree, 400) else { return c.discard() };
    let models = texts(&s.models());
    let a = ask_info(json_info(&models, 0), &query, reduce);
    if how == "prune" {
        let consistent = ask_info(json_info(&models, 0), &format!("consistency: {}", s.text()), reduce);
        if consistent.no() {
            c.class("refused");
            check!(matches!(a, Answer::Rejected(_)), "the system is inconsistent, but: {}", a.short());
            return Ok(());
        }
    }
    let Some(text) = component_text(&a) else { fail!("no component: {}", a.short()) };
    c.append(&format!("\n{}", text));
    let v: serde_json::Value = match serde_json::from_str(&text) {
        Ok(v) => v,
        Err(e) => fail!("not a JSON component: {}", e),
    };
    check!(v["name"] == "Made", "the component is called {}", v["name"]);
    check!(!text.contains(":null"), "a value is missing");
    // An action of edges that cannot be reached is not an action of the component.
    let made: BTreeSet<(String, bool)> = v["edges"]
        .as_array()
        .into_iter()
        .flatten()
        .map(|e| (e["sync"].as_str().unwrap_or_default().to_string(), e["status"] == "INPUT"))
        .collect();
    let (ins, outs) = (w.inputs(&s.tree), w.outputs(&s.tree));
    let want: BTreeSet<(String, bool)> = ins.iter().map(|a| (a.clone(), true)).chain(outs.iter().map(|a| (a.clone(), false))).collect();
    if let Some(x) = made.difference(&want).next() {
        fail!("{:?} is not an action of the system", x);
    }
    let missing: Vec<&String> = want.difference(&made).map(|x| &x.0).collect();
    if !missing.is_empty() {
        c.class("an action is lost");
        let Some(all) = w.reachable(&s.tree, 3000) else { return c.discard() };
        for a in missing {
            check!(all.iter().all(|st| w.moves(&s.tree, st, a).is_empty()), "the component does not do {}", a);
        }
        return Ok(());
    }
    match read_back(&v) {
        Err(m) => fail!("{}", m),
        Ok(None) => c.class("clock differences"),
        Ok(Some(m)) => {
            let mut comps = s.refs();
            comps.push(&m);
            let both = World::new(comps);
            let made = Tree::Leaf(s.comps.len());
            for (l, r, what) in [(&made, &s.tree, "the component does more"), (&s.tree, &made, "the component does less")] {
                match both.refines(l, r, 4000) {
                    None => c.class("not decided by the reference"),
                    Some(Ok(_)) => c.class("decided by the reference"),
                    Some(Err(why)) => fail!("{}: {}", what, why),
                }
            }
        }
    }
    let mut all = models.clone();
    all.push(text);
    let mut answers = vec![];
    for q in [format!("refinement: Made <= {}", s.text()), format!("refinement: {} <= Made", s.text())] {
        let a = ask_info(json_info(&all, 0), &q, false);
        answers.push((q, a));
    }
    let consistent = ask_info(json_info(&models, 0), &format!("consistency: {}", s.text()), false);
    // parts may be consistent on their own only
    let whole = sound && matches!(consistent, Answer::Yes(_));
    c.class(if whole { "consistent" } else { "inconsistent" });
    c.nontrivial(whole && s.comps.len() > 1);
    let a = ask_info(json_info(&all, 0), "consistency: Made", false);
    // That a location is inconsistent is lost: a known finding.
    let marked = s.comps.iter().any(|m| m.locs.iter().any(|l| l.kind == LocKind::Inconsistent));
    check!((a.yes() == sound || marked) && !matches!(a, Answer::Internal(_) | Answer::Rejected(_)), "the system is {}consistent, consistency of the component: {}", if sound { "" } else { "in" }, a.short());
    if special {
        c.class("special locations");
    }
    for (q, a) in answers {
        if whole {
            check!(a.yes(), "{}: {}", q, a.short());
        } else {
            check!(!matches!(a, Answer::Internal(_) | Answer::Rejected(_)), "{}: {}", q, a.short());
        }
    }
    Ok(())
}

/// That a location is inconsistent is part of the behaviour.
fn inconsistent_location() -> Result<(), String> {
    let a = Comp {
        name: "A".into(),
        clocks: vec![],
        locs: vec![
            Loc { id: "L0".into(), kind: LocKind::Initial, inv: vec![] },
            Loc { id: "L1".into(), kind: LocKind::Inconsistent, inv: vec![] },
        ],
        edges: vec![Edge { id: "E0".into(), src: 0, tgt: 1, input: true, action: "i".into(), guard: vec![], resets: vec![] }],
        stars: false,
    };
    let made = ask_info(json_info(&[a.json()], 0), "get-component: A save-as Made", false);
    let Some(text) = component_text(&made) else { return Err(format!("no component: {}", made.short())) };
    let before = ask_info(json_info(&[a.json()], 0), "consistency: A", false);
    let after = ask_info(json_info(&[text], 0), "consistency: Made", false);
    if before.yes() != after.yes() {
        return Err(format!("{}: consistency is {}, but that of the component made of it is {}", a.show(), before.short(), after.short()));
    }
    Ok(())
}

/// A component refines a quotient exactly if it refines the component made of it.
fn quotient(c: &mut Case) -> Res {
    let (comps, system) = if c.chance(1, 3) {
        // one that contains a quotient
        let (s, mut x) = super::quotsim::gen_and(c, &[1, 2, 2, 3]);
        x.name = "X".into();
        if c.chance(1, 2) {
            x = mutate(c, &x, "X", 2);
        }
        let mut comps: Vec<Comp> = s.comps.iter().filter(|m| m.name != QUOTIENT).cloned().collect();
        comps.push(x);
        c.class("in a system");
        (comps, s.text())
    } else {
        let (comps, _, text_t) = super::quotient::gen_three(c);
        (comps, format!("{} // S", text_t))
    };
    let reduce = c.chance(1, 2);
    let query = format!("get-component: {} save-as Made", system);
    let models = texts(&comps.iter().collect::<Vec<_>>());
    c.describe(format!("{}\n{}\nclock reduction: {}", query, comps.iter().map(|m| m.show()).collect::<Vec<_>>().join("\n"), reduce));
    if comps.iter().any(super::verdicts::own_overlap) {
        return c.discard();
    }
    let a = ask_info(json_info(&models, 0), &format!("refinement: X <= {}", system), false);
    let b = match &a {
        Answer::Yes(_) => true,
        // only what the states are like is of interest
        Answer::No(R::Refinement(f)) if matches!(f.failure, Some(Failure::RefinementState(_))) => false,
        _ => return c.discard(),
    };
    let made = ask_info(json_info(&models, 0), &query, reduce);
    let Some(text) = component_text(&made) else { fail!("no component: {}", made.short()) };
    c.append(&format!("\n{}", text));
    let v: Value = match serde_json::from_str(&text) {
        Ok(v) => v,
        Err(e) => fail!("not a JSON component: {}", e),
    };
    let made = match read_back(&v) {
        Err(m) => fail!("{}", m),
        Ok(None) => return c.discard(),
        Ok(Some(m)) => m,
    };
    let x = comps.iter().find(|m| m.name == "X").unwrap();
    let w = World::new(vec![x, &made]);
    // actions of edges that cannot be reached are lost
    let lost: Vec<String> = w.outputs(&Tree::Leaf(0)).difference(&w.outputs(&Tree::Leaf(1))).cloned().collect();
    let lost_in = w.inputs(&Tree::Leaf(0)).difference(&w.inputs(&Tree::Leaf(1))).count();
    let Some(r) = w.refines(&Tree::Leaf(0), &Tree::Leaf(1), 4000) else { return c.discard() };
    c.class(if b { "refines" } else { "does not refine" });
    if !lost.is_empty() || lost_in > 0 {
        c.class("an action is lost");
        return Ok(());
    }
    c.nontrivial(true);
    match (b, r) {
        (true, Err(why)) => fail!("X <= {}, but X does not refine the component: {}", system, why),
        (false, Ok(_)) => fail!("X refines the component, but: {}", a.short()),
        _ => Ok(()),
    }
}

/// What a drawing is made of: not where things are.
fn parts_of(v: &Value) -> Vec<String> {
    let mut clocks: Vec<&str> = v["declarations"].as_str().unwrap_or("").trim_start_matches("clock").trim_end_matches(';').split(',').map(str::trim).collect();
    clocks.sort();
    let mut all = vec![format!("{:?}", clocks)];
    for l in v["locations"].as_array().into_iter().flatten() {
        all.push(format!("{} {} {:?}", l["id"], l["type"], sorted(&l["invariant"])));
    }
    for e in v["edges"].as_array().into_iter().flatten() {
        all.push(format!("{} {} {} {} {:?} {}", e["sourceLocation"], e["targetLocation"], e["sync"], e["status"], sorted(&e["guard"]), e["update"]));
    }
    all.sort();
    all
}

/// The constraints of a guard, in an order of their own
fn sorted(v: &Value) -> Vec<String> {
    let mut all: Vec<String> = v
        .as_str()
        .unwrap_or("")
        .replace(['(', ')'], " ")
        .split("||")
        .map(|part| {
            let mut atoms: Vec<String> = part.split("&&").map(|a| a.split_whitespace().collect()).collect();
            atoms.sort();
            atoms.join("&&")
        })
        .collect();
    all.sort();
    all
}

const COMPONENT: [(&str, bool); 11] = [
    ("name", true), ("declarations", true), ("locations", false), ("edges", false), ("description", true), ("x", false), ("y", false),
    ("width", false), ("height", false), ("color", true), ("includeInPeriodicCheck", false),
];
const LOCATION: [(&str, bool); 12] = [
    ("id", true), ("nickname", true), ("invariant", true), ("type", true), ("urgency", true), ("x", false), ("y", false), ("color", false),
    ("nicknameX", false), ("nicknameY", false), ("invariantX", false), ("invariantY", false),
];
const EDGE: [(&str, bool); 8] = [
    ("sourceLocation", true), ("targetLocation", true), ("status", true), ("select", true), ("guard", true), ("update", true), ("sync", true), ("nails", false),
];
const NAIL: [(&str, bool); 5] = [("x", false), ("y", false), ("propertyType", true), ("propertyX", false), ("propertyY", false)];

/// The fields that all the sample models have, and whether they are texts.
fn fields(v: &Value, all: &[(&str, bool)]) -> Res {
    for (f, text) in all {
        match v.get(*f) {
            None => fail!("{} is missing in {}", f, v),
            Some(x) => check!(!x.is_null() && x.is_string() == *text, "{} is {} in {}", f, x, v),
        }
    }
    Ok(())
}

/// The component can be drawn.
fn drawing(c: &mut Case) -> Res {
    let mut renamed = false;
    let s = if c.chance(1, 3) {
        super::quotsim::gen_and(c, &[1, 2, 2, 3]).0
    } else {
        let mut s = super::simulate::gen_walkable(c, 2);
        renamed = c.chance(1, 3);
        if renamed {
            name_clocks(c, &mut s);
        }
        s
    };
    let how = if c.chance(1, 3) { "prune" } else { "get-component" };
    let query = format!("{}: {} save-as Made", how, s.text());
    let reduce = c.chance(1, 2);
    c.describe(format!("{}\n{}\nclock reduction: {}", query, s.show(), reduce));
    let models = texts(&s.models());
    let a = ask_info(json_info(&models, 0), &query, reduce);
    if let Answer::Internal(m) = &a {
        fail!("internal error: {}", m);
    }
    let Some(text) = component_text(&a) else { return c.discard() };
    c.append(&format!("\n{}", text));
    let v: Value = match serde_json::from_str(&text) {
        Ok(v) => v,
        Err(e) => fail!("not a JSON component: {}", e),
    };
    fields(&v, &COMPONENT)?;
    let none = vec![];
    let (locs, edges) = (v["locations"].as_array().unwrap_or(&none), v["edges"].as_array().unwrap_or(&none));
    c.class(how);
    c.class(if s.tree.has_quotient() { "quotient" } else { "no quotient" });
    c.nontrivial(locs.len() > 1 && !edges.is_empty());
    let number = |x: &Value| x.as_f64().filter(|x| x.is_finite());
    let (Some(x), Some(y), Some(w), Some(h)) = (number(&v["x"]), number(&v["y"]), number(&v["width"]), number(&v["height"])) else {
        fail!("no box")
    };
    check!(w > 0.0 && h > 0.0, "the box is {} wide and {} high", w, h);
    check!((x + w / 2.0).abs() < 1.0 && (y + h / 2.0).abs() < 1.0, "the box of {} times {} starts at {}, {}", w, h, x, y);
    let mut points = vec![];
    let mut inside = |at: &Value| -> Res {
        match (number(&at["x"]), number(&at["y"])) {
            (Some(px), Some(py)) if px > 0.0 && px < w && py > 0.0 && py < h => {
                points.push((px, py));
                Ok(())
            }
            _ => fail!("{} is not inside the box of {} times {}", at, w, h),
        }
    };
    let mut ids = BTreeSet::new();
    for l in locs {
        fields(l, &LOCATION)?;
        inside(l)?;
        check!(ids.insert(l["id"].to_string()), "location {} is there twice", l["id"]);
        check!(l["color"].to_string() == v["color"].as_str().unwrap_or(""), "the component has color {}, and location {} has {}", v["color"], l["id"], l["color"]);
    }
    let initial = locs.iter().filter(|l| l["type"] == "INITIAL").count();
    check!(initial == 1, "{} initial locations", initial);
    let mut edge_ids = BTreeSet::new();
    for e in edges {
        fields(e, &EDGE)?;
        check!(edge_ids.insert(e["id"].to_string()), "edge {} is there twice", e["id"]);
        for end in ["sourceLocation", "targetLocation"] {
            check!(ids.contains(&e[end].to_string()), "an edge has {} {}, which is not there", end, e[end]);
        }
        let mut want = vec![];
        if e["guard"] != "" {
            want.push("GUARD");
        }
        if e["update"] != "" {
            want.push("UPDATE");
        }
        want.push("SYNCHRONIZATION");
        let nails = e["nails"].as_array().unwrap_or(&none);
        for n in nails {
            fields(n, &NAIL)?;
            inside(n)?;
        }
        let shown: Vec<&str> = nails.iter().filter_map(|n| n["propertyType"].as_str()).collect();
        for p in ["GUARD", "UPDATE", "SYNCHRONIZATION"] {
            let (n, m) = (shown.iter().filter(|s| **s == p).count(), want.iter().filter(|s| **s == p).count());
            check!(n == m || n == 1 && p != "SYNCHRONIZATION", "{} corners for {} in {}", n, p, e);
        }
        check!(e["sourceLocation"] != e["targetLocation"] || nails.len() > 1, "a loop with {} corners: {}", nails.len(), e);
        check!(shown.iter().all(|p| ["GUARD", "UPDATE", "SYNCHRONIZATION", "SELECTION", "NONE"].contains(p)), "corners {:?}", shown);
    }
    if points.len() > 1 {
        check!(points.iter().any(|p| *p != points[0]), "everything is in the same place");
    }
    if reduce || renamed {
        // which of two clocks that are alike is kept is not fixed, nor is a name made for a clock
        return Ok(());
    }
    // asked again, it is the same component
    let again = component_text(&ask_info(json_info(&models, 0), &query, reduce)).and_then(|t| serde_json::from_str::<Value>(&t).ok());
    let Some(again) = again else { fail!("no component when asked again") };
    let (a, b) = (parts_of(&v), parts_of(&again));
    if a != b {
        let differ: Vec<&String> = a.iter().filter(|x| !b.contains(x)).chain(b.iter().filter(|x| !a.contains(x))).collect();
        fail!("asked again, the component is another one: {:?}", differ);
    }
    Ok(())
}

pub fn specs() -> Vec<Spec> {
    vec![Spec {
        id: "G01",
        prop: made,
        quick: 8_000,
        thorough: 240_000,
        rule: "a random system of up to three components, made into one component with and without clock reduction, which is then compared with the system; non-trivial: a consistent system of several components",
        assumptions: ASSUME,
        fixed: &[("inconsistent-location", inconsistent_location)],
        floors: &[("consistent", 20.0)],
        threads: 8,
    }, Spec {
        id: "G02",
        prop: quotient,
        quick: 8_000,
        thorough: 240_000,
        rule: "random S, X and T as in R03: X is compared with the quotient and with the component that is made of it; every compared case counts",
        assumptions: ASSUME,
        fixed: &[],
        floors: &[("refines", 1.0), ("does not refine", 1.0)],
        threads: 8,
    }, Spec {
        id: "G03",
        prop: pruned,
        quick: 8_000,
        thorough: 240_000,
        rule: "as G01, with prune instead of get-component",
        assumptions: ASSUME,
        fixed: &[],
        floors: &[("consistent", 20.0), ("refused", 2.0)],
        threads: 8,
    }, Spec {
        id: "G04",
        prop: drawing,
        quick: 8_000,
        thorough: 240_000,
        rule: "a random system of up to three components or with a quotient, made into one component with get-component or prune, twice; non-trivial: at least two locations and an edge",
        assumptions: ASSUME,
        fixed: &[],
        floors: &[("prune", 10.0), ("get-component", 20.0), ("quotient", 5.0)],
        threads: 8,
    }]
}
