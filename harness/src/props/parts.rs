//! Single components: written to JSON and read again, and made input-enabled.
use crate::backend::{ask, ask_info, json_info};
use crate::model::*;
use crate::region::{Reg, World};
use crate::systems::all_regions;
use pbt::{check, fail, Case, Res, Spec};
use reveaal::DataReader::json_reader::{json_to_component, read_json_component};
use reveaal::DataReader::json_writer::{component_to_json, component_to_json_file};
use reveaal::System::input_enabler::make_input_enabled;

use super::saved::read_back;
use super::special::specials;
use super::verdicts::{own_overlap, ASSUME};
use super::writing::{compare, other_json};

fn params(c: &mut Case) -> Params {
    let mut p = Params::new(&["i", "j"], &["a", "b"]);
    p.clocks = c.idx(3);
    p.locs = 4;
    p.max_const = *c.pick(&[2, 4, 12]);
    p.deterministic = c.chance(2, 3);
    p.disjunctions = c.chance(1, 2);
    p.any_inv = c.chance(1, 2);
    p
}

/// The same edges and locations in the same order, each with the same meaning.
fn same(old: &Comp, new: &Comp) -> Result<(), String> {
    let same = |what: &str, a: &dyn std::fmt::Debug, b: &dyn std::fmt::Debug| {
        let (a, b) = (format!("{:?}", a), format!("{:?}", b));
        if a == b { Ok(()) } else { Err(format!("{}: {} became {}", what, a, b)) }
    };
    same("name", &old.name, &new.name)?;
    let sorted = |v: &[String]| {
        let mut v = v.to_vec();
        v.sort();
        v
    };
    same("clocks", &sorted(&old.clocks), &sorted(&new.clocks))?;
    same("number of locations", &old.locs.len(), &new.locs.len())?;
    same("number of edges", &old.edges.len(), &new.edges.len())?;
    // The clocks of the new one by the names of the old one
    let at: Vec<usize> = new.clocks.iter().map(|n| old.clocks.iter().position(|o| o == n).unwrap()).collect();
    let max: Vec<i64> = old.max_consts().iter().map(|m| m + 1).collect();
    let regions = all_regions(&max, 200_000).ok_or("too many regions")?;
    let holds = |g: &[Vec<Atom>], at: &dyn Fn(usize) -> usize, r: &Reg| g.is_empty() || g.iter().any(|d| d.iter().all(|a| r.sat(at(a.clock), a.rel, a.bound)));
    let meaning = |what: &str, g: &[Vec<Atom>], h: &[Vec<Atom>]| {
        for r in &regions {
            let (x, y) = (holds(g, &|k| k, r), holds(h, &|k| at[k], r));
            if x != y {
                return Err(format!("{}: {} for clocks {}, {} when read again", what, x, r.show(), y));
            }
        }
        Ok(())
    };
    for (l, m) in old.locs.iter().zip(&new.locs) {
        same("location", &(&l.id, l.kind), &(&m.id, m.kind))?;
        meaning(&format!("invariant of {}", l.id), &[l.inv.clone()], &[m.inv.clone()])?;
    }
    for (e, f) in old.edges.iter().zip(&new.edges) {
        let ends = |c: &Comp, e: &Edge| (e.id.clone(), c.locs[e.src].id.clone(), c.locs[e.tgt].id.clone(), e.input, e.action.clone());
        same("edge", &ends(old, e), &ends(new, f))?;
        meaning(&format!("guard of {}", e.id), &e.guard, &f.guard)?;
        let last = |r: Vec<(usize, i64)>| r.into_iter().collect::<std::collections::BTreeMap<_, _>>();
        same(
            &format!("update of {}", e.id),
            &last(e.resets.clone()),
            &last(f.resets.iter().map(|r| (at[r.0], r.1)).collect()),
        )?;
    }
    Ok(())
}

fn read(text: &str) -> Result<reveaal::ModelObjects::Component, String> {
    json_to_component(text).map_err(|e| format!("cannot be read: {}\n{}", e, text))
}

/// Read, written, read again.
fn round_trip(c: &mut Case) -> Res {
    let p = params(c);
    let mut m = gen_comp(c, "A", &p);
    let special = c.chance(1, 4) && specials(c, &mut m, true);
    let text = if special || c.chance(1, 2) { m.json() } else { other_json(c, &m) };
    c.describe(format!("{}\nwritten as {}", m.show(), text));
    let mut comp = match read(&text) {
        Ok(x) => x,
        Err(e) => fail!("{}", e),
    };
    let mut new = String::new();
    for _ in 0..1 + c.idx(3) {
        new = component_to_json(&comp);
        comp = match read(&new) {
            Ok(x) => x,
            Err(e) => fail!("{}", e),
        };
    }
    if c.chance(1, 20) {
        c.class("file");
        let dir = std::env::temp_dir().join(format!("j01-{}-{:?}", std::process::id(), std::thread::current().id()));
        std::fs::create_dir_all(dir.join("Components")).unwrap();
        component_to_json_file(&dir, &comp);
        let again = read_json_component(&dir, "A");
        let _ = std::fs::remove_dir_all(&dir);
        new = component_to_json(&again);
    }
    c.append(&format!("\nread and written again: {}", new));
    let v: serde_json::Value = match serde_json::from_str(&new) {
        Ok(v) => v,
        Err(e) => fail!("not JSON: {}", e),
    };
    match read_back(&v) {
        Err(e) => c.class(if text == m.json() { fail!("{}", e) } else { "other expressions" }),
        Ok(None) => c.class(if text == m.json() { fail!("other constraints") } else { "other expressions" }),
        Ok(Some(mut n)) => {
            n.edges.retain(|e| e.action != "*");
            c.class("compared piece by piece");
            if let Err(e) = same(&m, &n) {
                fail!("{}", e);
            }
        }
    }
    c.nontrivial(m.edges.iter().any(|e| !e.guard.is_empty() || !e.resets.is_empty()));
    if special {
        c.class("special locations");
        return Ok(());
    }
    // as one side of questions
    let b = mutate(c, &m, "B", p.max_const);
    for q in ["consistency: A", "determinism: A", "refinement: A <= B", "refinement: B <= A"] {
        let w = (ask(&[&m, &b], q), ask_info(json_info(&[new.clone(), b.json()], 0), q, false));
        compare(c, &w.0, &w.1, q, &m, &b, &new)?;
    }
    Ok(())
}

/// Every input is possible everywhere, and nothing else changes.
fn enabled(c: &mut Case) -> Res {
    let mut p = params(c);
    p.deterministic = true;
    let m = gen_comp(c, "A", &p);
    let mut inputs = m.inputs();
    if c.chance(1, 4) {
        inputs.push("k".into());
    }
    if c.chance(1, 6) && !inputs.is_empty() {
        inputs.remove(c.idx(inputs.len()));
    }
    c.shuffle(&mut inputs);
    c.describe(format!("{}\ninputs {:?}", m.show(), inputs));
    let mut comp = match read(&m.json()) {
        Ok(x) => x,
        Err(e) => fail!("{}", e),
    };
    make_input_enabled(&mut comp, &inputs);
    let text = component_to_json(&comp);
    c.append(&format!("\nbecomes {}", text));
    let v: serde_json::Value = serde_json::from_str(&text).unwrap();
    let n = match read_back(&v) {
        Err(e) => fail!("{}", e),
        Ok(None) => {
            c.class("clock differences");
            return c.discard();
        }
        Ok(Some(n)) => n,
    };
    check!(n.edges.len() >= m.edges.len(), "an edge is lost");
    let mut first = n.clone();
    first.edges.truncate(m.edges.len());
    if let Err(e) = same(&m, &first) {
        fail!("{}", e);
    }
    let added = &n.edges[m.edges.len()..];
    c.class(if added.is_empty() { "nothing to add" } else { "edges added" });
    c.nontrivial(!added.is_empty() && m.edges.iter().any(|e| e.input && !e.guard.is_empty()));
    for e in added {
        check!(e.input && inputs.contains(&e.action), "{} is no input", e.action);
        check!(e.src == e.tgt && e.resets.is_empty(), "the edge for {} in {} does something", e.action, n.locs[e.src].id);
    }
    let mut w = World::new(vec![&n]);
    for (x, k) in w.max.iter_mut().enumerate() {
        *k = (*k).max(m.max_consts().get(x).copied().unwrap_or(0)) + 1;
    }
    let Some(regions) = all_regions(&w.max, 200_000) else { return c.discard() };
    for l in 0..n.locs.len() {
        for r in regions.iter().filter(|r| w.conj(0, &n.locs[l].inv, r)) {
            for a in &inputs {
                let can = |list: std::ops::Range<usize>| list.filter(|e| n.edges[*e].src == l && n.edges[*e].input && n.edges[*e].action == *a && w.edge_enabled(0, *e, r)).count();
                let (old, new) = (can(0..m.edges.len()), can(m.edges.len()..n.edges.len()));
                check!(old + new > 0, "{} is not possible in {} with clocks {}", a, n.locs[l].id, r.show());
                check!(old == 0 || new == 0, "{} is doubled in {} with clocks {}", a, n.locs[l].id, r.show());
                check!(new <= 1, "{} is added twice in {} with clocks {}", a, n.locs[l].id, r.show());
            }
        }
    }
    if inputs.iter().any(|i| i == "k") || own_overlap(&m) {
        return Ok(());
    }
    // an input without an edge was ignored before
    for q in ["consistency: A", "determinism: A"] {
        let w = (ask(&[&m], q), ask_info(json_info(&[text.clone()], 0), q, false));
        compare(c, &w.0, &w.1, q, &m, &m, &text)?;
    }
    let consistent = ask(&[&m], "consistency: A").yes();
    let other = text.replacen("\"name\":\"A\"", "\"name\":\"Z\"", 1);
    for q in ["refinement: A <= Z", "refinement: Z <= A"] {
        let a = ask_info(json_info(&[m.json(), other.clone()], 0), q, false);
        check!(a.yes() == consistent, "{}: {}", q, a.short());
    }
    Ok(())
}

pub fn specs() -> Vec<Spec> {
    vec![
        Spec {
            id: "J01",
            prop: round_trip,
            quick: 12_000,
            thorough: 360_000,
            rule: "a random component, also with special locations, as JSON text with plain or random spelling, read and written up to three times, sometimes through a file; non-trivial: an edge has a guard or an update",
            assumptions: ASSUME,
            fixed: &[],
            floors: &[("compared piece by piece", 40.0), ("special locations", 2.0), ("file", 2.0), ("refinement yes", 3.0), ("refinement no", 3.0)],
            threads: 8,
        },
        Spec {
            id: "I01",
            prop: enabled,
            quick: 12_000,
            thorough: 360_000,
            rule: "a random component and a list of inputs, mostly the component's; every region of every location is looked at; non-trivial: an edge is added, and some input edge had a guard",
            assumptions: ASSUME,
            fixed: &[],
            floors: &[("edges added", 40.0), ("consistency yes", 10.0), ("consistency no", 1.0)],
            threads: 8,
        },
    ]
}
