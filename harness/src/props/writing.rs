//! Ways of writing one model: the answers must not depend on them.
use crate::backend::{ask, ask_info, json_info, xml_info, Answer};
use crate::model::*;
use pbt::{check, fail, Case, Res, Spec};
use serde_json::json;

use super::verdicts::ASSUME;

fn params(c: &mut Case) -> Params {
    let mut p = Params::new(&["i", "j"], &["a", "b"]);
    p.clocks = c.idx(3);
    p.locs = 3;
    p.max_const = 4;
    p.deterministic = c.chance(5, 6);
    p.progress = c.chance(3, 4);
    p.disjunctions = c.chance(1, 2);
    p.any_inv = c.chance(1, 3);
    p
}

/// Two components and questions about them.
fn models(c: &mut Case) -> (Comp, Comp, Vec<String>) {
    let p = params(c);
    let mut a = gen_comp(c, "A", &p);
    fill_alphabet(&mut a, &p);
    let b = if c.chance(2, 3) {
        mutate(c, &a, "B", p.max_const)
    } else {
        let mut b = gen_comp(c, "B", &p);
        fill_alphabet(&mut b, &p);
        b
    };
    let q = vec!["consistency: A".into(), "determinism: A".into(), "refinement: A <= B".into(), reach_query(c, &a)];
    (a, b, q)
}

fn reach_query(c: &mut Case, a: &Comp) -> String {
    let l = c.pick(&a.locs).id.clone();
    let mut q = format!("reachability: A @ init -> A.{}", l);
    if !a.clocks.is_empty() && c.chance(2, 3) {
        let x = c.pick(&a.clocks).clone();
        q += &format!(" && A.{} {} {}", x, c.pick(&["<=", "<", ">", ">=", "=="]), c.range(0, 5));
    }
    q
}

fn kind(a: &Answer) -> &'static str {
    match a {
        Answer::Yes(_) => "yes",
        Answer::No(_) => "no",
        Answer::Rejected(_) => "rejected",
        Answer::Internal(_) => "internal error",
    }
}

fn sp(c: &mut Case) -> String {
    c.pick(&["", "", "", " ", "  ", "\n", "\t"]).to_string()
}

/// A constant, written in some way.
fn constant(c: &mut Case, k: i64) -> String {
    match c.below(8) {
        0 => format!("({})", k),
        1 => {
            let a = c.range(0, k);
            format!("{}{}+{}{}", a, sp(c), sp(c), k - a)
        }
        2 => format!("{}-{}", k + 2, 2),
        3 => format!("{}*{}", 1, k),
        4 => format!("{}/{}", 2 * k, 2),
        5 => format!("{}%{}", k, k + 3),
        _ => k.to_string(),
    }
}

fn atom(c: &mut Case, a: &Atom, clocks: &[String]) -> String {
    let x = &clocks[a.clock];
    let (l, r) = match c.below(8) {
        0 => {
            let k = c.range(1, 3);
            (format!("{}+{}", x, k), constant(c, a.bound + k))
        }
        1 => (format!("({})", x), constant(c, a.bound)),
        _ => (x.clone(), constant(c, a.bound)),
    };
    let s = (sp(c), sp(c));
    if c.chance(1, 3) {
        format!("{}{}{}{}{}", r, s.0, a.rel.flipped().text(), s.1, l)
    } else {
        format!("{}{}{}{}{}", l, s.0, a.rel.text(), s.1, r)
    }
}

fn conj(c: &mut Case, atoms: &[Atom], clocks: &[String]) -> String {
    let mut parts = vec![];
    for a in atoms {
        if a.rel == Rel::Eq && c.chance(1, 3) {
            for rel in [Rel::Le, Rel::Ge] {
                parts.push(atom(c, &Atom { rel, ..*a }, clocks));
            }
        } else {
            parts.push(atom(c, a, clocks));
        }
        if c.chance(1, 8) {
            parts.push(atom(c, a, clocks));
        }
        if c.chance(1, 8) {
            // Something weaker
            let weaker = match a.rel {
                Rel::Le | Rel::Lt => Some(Rel::Le),
                Rel::Ge | Rel::Gt if a.bound > 0 => Some(Rel::Ge),
                _ => None,
            };
            if let Some(rel) = weaker {
                let bound = if rel == Rel::Le { a.bound + c.range(0, 2) } else { a.bound - c.range(0, 1) };
                parts.push(atom(c, &Atom { clock: a.clock, rel, bound }, clocks));
            }
        }
    }
    if c.chance(1, 6) {
        parts.push("true".into());
    }
    c.shuffle(&mut parts);
    let mut s = String::new();
    for (i, p) in parts.iter().enumerate() {
        if i > 0 {
            s += &format!("{}&&{}", sp(c), sp(c));
        }
        if c.chance(1, 5) {
            s += &format!("({})", p);
        } else {
            s += p;
        }
    }
    s
}

fn guard(c: &mut Case, g: &[Vec<Atom>], clocks: &[String]) -> String {
    let mut s = match g.len() {
        0 => c.pick(&["", "", "true", " "]).to_string(),
        1 => conj(c, &g[0], clocks),
        _ => {
            let mut parts: Vec<String> = vec![];
            for d in g {
                let t = conj(c, d, clocks);
                parts.push(if t.is_empty() { "true".into() } else { format!("({})", t) });
            }
            if c.chance(1, 5) {
                parts.push("false".into());
            }
            c.shuffle(&mut parts);
            parts.join(c.pick(&["||", " || "]))
        }
    };
    if !s.trim().is_empty() && c.chance(1, 6) {
        s = format!("({})", s);
    }
    if !s.trim().is_empty() && c.chance(1, 6) {
        s += ";";
    }
    s
}

fn update(c: &mut Case, r: &[(usize, i64)], clocks: &[String]) -> String {
    let mut parts: Vec<String> = vec![];
    let mut order: Vec<(usize, i64)> = r.to_vec();
    c.shuffle(&mut order);
    let eq = |c: &mut Case| c.pick(&["=", " = ", ":=", " := "]).to_string();
    for (x, v) in &order {
        if c.chance(1, 6) {
            let other = c.range(0, 4);
            let e = eq(c);
            parts.push(format!("{}{}{}", clocks[*x], e, other));
        }
        let e = eq(c);
        let v = constant(c, *v);
        parts.push(format!("{}{}{}", clocks[*x], e, v));
    }
    let mut s = parts.join(c.pick(&[",", ", ", " , "]));
    if !s.is_empty() && c.chance(1, 8) {
        s += ",";
    }
    s
}

fn declarations(c: &mut Case, clocks: &[String], xml: bool) -> String {
    let mut s = String::new();
    let nl = if xml && c.chance(1, 4) { "\r\n" } else { "\n" };
    let mut i = 0;
    if c.chance(1, 4) {
        s += &format!("// clock {};{}", c.pick(&["q", "x", "y"]), nl);
    }
    while i < clocks.len() {
        let n = 1 + c.idx(clocks.len() - i);
        let sep = c.pick(&[",", ", ", " , "]).to_string();
        if c.chance(1, 4) {
            s += c.pick(&[" ", "\t", "  "]);
        }
        s += &format!("clock{}{};", c.pick(&[" ", "  ", "\t"]), clocks[i..i + n].join(&sep));
        if c.chance(1, 5) {
            s += c.pick(&[" // the clocks", "// x", " "]);
            s += nl;
        } else {
            s += c.pick(&["", " ", nl, nl]);
        }
        i += n;
    }
    s
}

/// The component as JSON, written differently.
pub fn other_json(c: &mut Case, m: &Comp) -> String {
    let mut locs: Vec<serde_json::Value> = vec![];
    for l in &m.locs {
        let inv = if l.inv.is_empty() { String::new() } else { guard(c, &[l.inv.clone()], &m.clocks) };
        locs.push(json!({
            "id": l.id, "nickname": *c.pick(&["", "n", "L0"]), "invariant": inv,
            "type": if l.kind == LocKind::Initial { "INITIAL" } else { "NORMAL" },
            "urgency": "NORMAL", "x": c.range(0, 9), "y": 2.5, "color": "3", "nicknameX": 30.0,
            "nicknameY": -10.0, "invariantX": 30.0, "invariantY": 10.0
        }));
    }
    let mut edges: Vec<serde_json::Value> = vec![];
    for e in &m.edges {
        let g = guard(c, &e.guard, &m.clocks);
        let u = update(c, &e.resets, &m.clocks);
        let sync = match c.below(3) {
            0 => format!("{}{}{}", e.action, if c.chance(1, 3) { " " } else { "" }, if e.input { "?" } else { "!" }),
            _ => e.action.clone(),
        };
        edges.push(json!({
            "id": e.id, "group": *c.pick(&["", "g"]), "sourceLocation": m.locs[e.src].id,
            "targetLocation": m.locs[e.tgt].id, "status": if e.input { "INPUT" } else { "OUTPUT" },
            "select": "", "guard": g, "update": u, "sync": sync, "isLocked": c.chance(1, 5),
            "nails": []
        }));
    }
    let decl = declarations(c, &m.clocks, false);
    let mut v = json!({
        "name": m.name, "declarations": decl, "locations": locs, "edges": edges, "description": "",
        "x": 5.0, "y": 5.0, "width": 450.0, "height": 600.0, "color": "6", "includeInPeriodicCheck": false
    });
    if c.chance(1, 5) {
        v["special_id"] = serde_json::Value::Null;
    }
    if c.chance(1, 2) {
        v.to_string()
    } else {
        serde_json::to_string_pretty(&v).unwrap()
    }
}

fn label(kind: &str, text: &str, c: &mut Case) -> String {
    let pos = if c.chance(1, 2) { " x=\"-10\" y=\"30\"" } else { "" };
    format!("<label kind=\"{}\"{}>{}</label>", kind, pos, escape(text))
}

/// The components as one UPPAAL file.
fn xml(c: &mut Case, comps: &[&Comp], plain: bool) -> String {
    let mut s = String::from("<?xml version=\"1.0\" encoding=\"utf-8\"?>");
    if c.chance(1, 2) {
        s += "<!DOCTYPE nta PUBLIC '-//Uppaal Team//DTD Flat System 1.1//EN' 'http://www.it.uu.se/research/group/darts/uppaal/flat-1_2.dtd'>";
    }
    s += "<nta><declaration>broadcast chan i, j, a, b;</declaration>";
    for m in comps {
        s += &format!("\n<template><name{}>{}</name>", if c.chance(1, 2) { " x=\"5\" y=\"5\"" } else { "" }, m.name);
        if !m.clocks.is_empty() || c.chance(1, 3) {
            let d = if plain { format!("clock {};", m.clocks.join(", ")) } else { declarations(c, &m.clocks, true) };
            let d = if m.clocks.is_empty() { String::new() } else { d };
            s += &format!("<declaration>{}</declaration>", d);
        }
        for l in &m.locs {
            s += &format!("<location id=\"{}\" x=\"0\" y=\"1\">", l.id);
            if c.chance(1, 3) {
                s += &format!("<name x=\"1\" y=\"2\">{}</name>", c.pick(&["here", "L0", "L1"]));
            }
            if c.chance(1, 6) {
                s += &label("comments", "nothing to see", c);
            }
            if !l.inv.is_empty() {
                let t = if plain { conj_text(&l.inv, &m.clocks) } else { guard(c, &[l.inv.clone()], &m.clocks) };
                s += &label("invariant", &t, c);
            }
            if c.chance(1, 8) {
                s += &label("exponentialrate", "3", c);
            }
            s += "</location>";
        }
        if let Some(i) = m.initial() {
            s += &format!("<init ref=\"{}\"/>", m.locs[i].id);
        }
        for e in &m.edges {
            s += &format!("<transition><source ref=\"{}\"/><target ref=\"{}\"/>", m.locs[e.src].id, m.locs[e.tgt].id);
            let mut labels = vec![];
            if !e.guard.is_empty() {
                let t = if plain { guard_text(&e.guard, &m.clocks) } else { guard(c, &e.guard, &m.clocks) };
                labels.push(label("guard", &t, c));
            }
            let (before, between, after) = *c.pick(&[("", "", ""), ("", "", ""), ("", "", ""), ("", " ", ""), (" ", "", ""), ("", "", "\n")]);
            labels.push(label("synchronisation", &format!("{}{}{}{}{}", before, e.action, between, if e.input { "?" } else { "!" }, after), c));
            if !e.resets.is_empty() {
                let t = if plain { resets_text(&e.resets, &m.clocks) } else { update(c, &e.resets, &m.clocks) };
                labels.push(label("assignment", &t, c));
            }
            if c.chance(1, 8) {
                labels.push(label("comments", "x < 0", c));
            }
            c.shuffle(&mut labels);
            s += &labels.concat();
            if c.chance(1, 4) {
                s += "<nail x=\"1\" y=\"2\"/>";
            }
            s += "</transition>";
        }
        s += "</template>";
    }
    s += "<system>";
    let io = c.chance(1, 2);
    s += &super::cli::declare(c, comps, io);
    s + "</system></nta>"
}

pub fn compare(c: &mut Case, plain: &Answer, other: &Answer, query: &str, a: &Comp, b: &Comp, text: &str) -> Res {
    for w in [plain, other] {
        if matches!(w, Answer::Internal(_)) {
            fail!("{}: {}\n{}\n{}\nwritten as {}", query, w.short(), a.show(), b.show(), text);
        }
    }
    check!(
        kind(plain) == kind(other),
        "{}: {} if written plainly, {} otherwise\n{}\n{}\nwritten as {}",
        query,
        plain.short(),
        other.short(),
        a.show(),
        b.show(),
        text
    );
    let q = query.split(':').next().unwrap();
    c.class(&format!("{} {}", q, kind(plain)));
    Ok(())
}

/// One model in JSON, written in two ways.
fn spelling(c: &mut Case) -> Res {
    let (a, b, queries) = models(c);
    c.describe(format!("{}\n{}", a.show(), b.show()));
    let other = vec![other_json(c, &a), other_json(c, &b)];
    c.append(&format!("\nA written as {}\nB written as {}", other[0], other[1]));
    c.nontrivial(!a.clocks.is_empty() && a.edges.iter().any(|e| !e.guard.is_empty() || !e.resets.is_empty()));
    for q in &queries {
        let w = (ask(&[&a, &b], q), ask_info(json_info(&other, 0), q, false));
        compare(c, &w.0, &w.1, q, &a, &b, &other.concat())?;
    }
    Ok(())
}

/// One model in JSON and in UPPAAL's XML.
fn formats(c: &mut Case) -> Res {
    let (a, b, queries) = models(c);
    c.describe(format!("{}\n{}", a.show(), b.show()));
    let plain = c.chance(1, 2);
    let comps = if c.chance(1, 2) { [&a, &b] } else { [&b, &a] };
    let text = xml(c, &comps, plain);
    c.append(&format!("\nXML {}", text));
    c.nontrivial(!a.clocks.is_empty() && a.edges.iter().any(|e| !e.guard.is_empty() || !e.resets.is_empty()));
    for q in &queries {
        let w = (ask(&[&a, &b], q), ask_info(xml_info(&text), q, false));
        compare(c, &w.0, &w.1, q, &a, &b, &text)?;
    }
    Ok(())
}

const NAMES: &[&str] = &[
    "x", "y", "z", "t", "clk", "a", "b", "i", "j", "A", "B", "L0", "L1", "notL", "orange", "and1", "true1", "falsey",
    "init", "x_1", "Xx", "e0", "U", "consistency", "refinement", "reach", "univ", "q9", "long_name_with_many_parts", "E1",
];

fn fresh(c: &mut Case, n: usize) -> Vec<String> {
    let mut all: Vec<String> = NAMES.iter().map(|s| s.to_string()).collect();
    c.shuffle(&mut all);
    all.truncate(n);
    all
}

/// Renaming and reordering everything.
fn renaming(c: &mut Case) -> Res {
    let (a, b, _) = models(c);
    let comps = [&a, &b];
    c.describe(format!("{}\n{}", a.show(), b.show()));
    let names = fresh(c, 2);
    let acts = fresh(c, 4);
    let mut renamed = vec![];
    for (k, m) in comps.iter().enumerate() {
        let mut r = (*m).clone();
        r.name = names[k].clone();
        let locs = fresh(c, m.locs.len());
        for (l, n) in r.locs.iter_mut().zip(&locs) {
            l.id = n.clone();
        }
        r.clocks = fresh(c, m.clocks.len());
        let ids = fresh(c, m.edges.len().min(NAMES.len()));
        for (i, e) in r.edges.iter_mut().enumerate() {
            if let Some(id) = ids.get(i) {
                e.id = id.clone();
            }
            let at = ["i", "j", "a", "b"].iter().position(|x| *x == e.action).unwrap();
            e.action = acts[at].clone();
        }
        // Reordering: locations keep their meaning through the indices of the edges
        let mut perm: Vec<usize> = (0..r.locs.len()).collect();
        c.shuffle(&mut perm);
        let mut locs = r.locs.clone();
        for (old, new) in perm.iter().enumerate() {
            locs[*new] = r.locs[old].clone();
        }
        r.locs = locs;
        for e in &mut r.edges {
            e.src = perm[e.src];
            e.tgt = perm[e.tgt];
        }
        c.shuffle(&mut r.edges);
        // Clocks: another order of declaration
        let swapped = r.clocks.len() == 2 && c.chance(1, 2);
        if swapped {
            r.clocks.reverse();
            let swap = |a: &mut Atom| a.clock = 1 - a.clock;
            r.locs.iter_mut().flat_map(|l| &mut l.inv).for_each(swap);
            r.edges.iter_mut().flat_map(|e| e.guard.iter_mut().flatten()).for_each(swap);
            r.edges.iter_mut().flat_map(|e| &mut e.resets).for_each(|r| r.0 = 1 - r.0);
        }
        renamed.push((r, perm, swapped));
    }
    let (ra, rb) = (&renamed[0].0, &renamed[1].0);
    c.append(&format!("\nrenamed:\n{}\n{}", ra.show(), rb.show()));
    c.nontrivial(!a.clocks.is_empty() && a.edges.iter().any(|e| !e.guard.is_empty() || !e.resets.is_empty()));
    let at = c.idx(a.locs.len());
    let clock = (!a.clocks.is_empty() && c.chance(2, 3)).then(|| c.idx(a.clocks.len()));
    let (rel, k) = (*c.pick(&["<=", "<", ">", ">=", "=="]), c.range(0, 5));
    let reversed = renamed[0].2;
    let queries = |m: &Comp, n: &Comp, loc: usize, clock: Option<usize>| {
        let mut v = vec![
            format!("consistency: {}", m.name),
            format!("determinism: {}", m.name),
            format!("refinement: {} <= {}", m.name, n.name),
        ];
        let mut q = format!("reachability: {} @ init -> {}.{}", m.name, m.name, m.locs[loc].id);
        if let Some(x) = clock {
            q += &format!(" && {}.{} {} {}", m.name, m.clocks[x], rel, k);
        }
        v.push(q);
        v
    };
    let old = queries(&a, &b, at, clock);
    let new = queries(ra, rb, renamed[0].1[at], clock.map(|x| if reversed { 1 - x } else { x }));
    let list: Vec<&Comp> = if c.chance(1, 2) { vec![ra, rb] } else { vec![rb, ra] };
    for (o, n) in old.iter().zip(&new) {
        let w = (ask(&[&a, &b], o), ask(&list, n));
        compare(c, &w.0, &w.1, &format!("{} / {}", o, n), &a, &b, &format!("{}\n{}", ra.show(), rb.show()))?;
    }
    Ok(())
}

/// A model that is refused or misread must not depend on the other components being there.
fn bystanders(c: &mut Case) -> Res {
    let (a, b, queries) = models(c);
    c.describe(format!("{}\n{}", a.show(), b.show()));
    let mut texts = vec![a.json(), b.json()];
    let extra = 1 + c.idx(3);
    for k in 0..extra {
        let p = params(c);
        let name = format!("{}{}", c.pick(&["C", "A", "B"]), k + 1);
        let m = gen_comp(c, &name, &p);
        texts.push(m.json());
        c.append(&format!("\n{}", m.show()));
    }
    c.shuffle(&mut texts);
    c.nontrivial(!a.clocks.is_empty() && a.edges.iter().any(|e| !e.guard.is_empty() || !e.resets.is_empty()));
    let reduce = c.chance(1, 2);
    for q in &queries {
        let r = |t: &[String]| ask_info(json_info(t, 0), q, reduce);
        let w = (r(&[a.json(), b.json()]), r(&texts));
        compare(c, &w.0, &w.1, q, &a, &b, &texts.concat())?;
    }
    Ok(())
}

pub fn specs() -> Vec<Spec> {
    let mut v = vec![];
    let rule = "the first component has clocks and an edge with a guard or an update";
    let floors: &[(&str, f64)] = &[("refinement yes", 3.0), ("refinement no", 3.0), ("consistency no", 1.0), ("determinism no", 1.0), ("reachability no", 1.0)];
    for (id, prop, quick) in [
        ("M01", formats as fn(&mut Case) -> Res, 12_000),
        ("M02", spelling as fn(&mut Case) -> Res, 12_000),
        ("M03", renaming as fn(&mut Case) -> Res, 12_000),
        ("M04", bystanders as fn(&mut Case) -> Res, 8_000),
    ] {
        v.push(Spec { id, prop, quick, thorough: 30 * quick, rule, assumptions: ASSUME, fixed: &[], floors, threads: 8 });
    }
    v
}
