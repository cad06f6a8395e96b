//! Components with an error in them: no verdict is given about them.
use crate::backend::{ask_info, json_info, xml_info, Answer};
use crate::model::*;
use pbt::{check, fail, Case, Res, Spec};
use serde_json::{json, Value};

use super::verdicts::ASSUME;

const TEXTS: [&str; 10] = ["x <", "x <= 3 &&", "(x <= 3", "x <= 3)", "x ? 3", "3x", "x <= 99999999999", "&& x", "x <= y <= ", "x = "];
const NO_GUARD: [&str; 3] = ["x = 3", "x := 0", "x <= 1, x <= 2"];
const NO_UPDATE: [&str; 3] = ["x <= 3", "x == 1", "x = 1 && x = 2"];

fn some<'a>(c: &mut Case, v: &'a mut Value, list: &str) -> Option<&'a mut Value> {
    let l = v[list].as_array_mut()?;
    match l.len() {
        0 => None,
        n => Some(&mut l[c.idx(n)]),
    }
}

/// Puts an error into the component, and says which.
fn spoil(c: &mut Case, v: &mut Value) -> Option<String> {
    match c.idx(8) {
        0 => {
            // a part is missing
            let (list, keys): (&str, &[&str]) = match c.idx(3) {
                0 => ("", &["declarations", "locations", "edges"]),
                1 => ("locations", &["id", "invariant", "type", "urgency"]),
                _ => ("edges", &["id", "sourceLocation", "targetLocation", "status", "guard", "update", "sync"]),
            };
            let key = *c.pick(keys);
            let part = if list.is_empty() { v } else { some(c, v, list)? };
            part.as_object_mut()?.remove(key)?;
            Some(format!("{} missing in {}", key, if list.is_empty() { "the component" } else { list }))
        }
        1 => {
            // of another type
            let (list, keys): (&str, &[&str]) = match c.idx(3) {
                0 => ("", &["declarations", "locations", "edges"]),
                1 => ("locations", &["id", "invariant", "type", "urgency"]),
                _ => ("edges", &["id", "sourceLocation", "targetLocation", "status", "guard", "update", "sync"]),
            };
            let key = *c.pick(keys);
            let wrong = c.pick(&[json!(3), json!(null), json!({}), json!(true), json!([7])]).clone();
            let part = if list.is_empty() { v } else { some(c, v, list)? };
            part[key] = wrong;
            Some(format!("{} of another type in {}", key, if list.is_empty() { "the component" } else { list }))
        }
        2 => {
            // an unknown kind
            if c.chance(1, 2) {
                some(c, v, "locations")?["type"] = json!(*c.pick(&["", "FIRST", "initial", "NORMAL ", "ANY"]));
                Some("a location of an unknown kind".into())
            } else {
                some(c, v, "edges")?["status"] = json!(*c.pick(&["", "BOTH", "input", "OUT"]));
                Some("an edge of an unknown kind".into())
            }
        }
        3 => {
            // text that is not well-formed
            let what = c.idx(3);
            let own: &[&str] = if what == 2 { &NO_UPDATE } else { &NO_GUARD };
            let text = if c.chance(1, 3) { *c.pick(own) } else { *c.pick(&TEXTS) };
            let text = if what == 2 && text == "x = " { "x = ," } else { text };
            match what {
                0 => some(c, v, "locations")?["invariant"] = json!(text),
                1 => some(c, v, "edges")?["guard"] = json!(text),
                _ => some(c, v, "edges")?["update"] = json!(text),
            }
            Some(format!("the text {}", text))
        }
        4 => {
            // a clock that is not there
            match c.idx(3) {
                0 => some(c, v, "locations")?["invariant"] = json!(*c.pick(&["zz <= 3", "zz < 5 && zz > 1", "3 <= zz"])),
                1 => some(c, v, "edges")?["guard"] = json!(*c.pick(&["zz <= 3", "zz > 5", "zz <= 3 || zz > 9"])),
                _ => some(c, v, "edges")?["update"] = json!(*c.pick(&["zz = 0", "zz = 3"])),
            }
            Some("an unknown clock".into())
        }
        5 => {
            // a location that is not there
            let key = *c.pick(&["sourceLocation", "targetLocation"]);
            let name = *c.pick(&["", "Nowhere", "l0", "L0 ", "A.L0"]);
            some(c, v, "edges")?[key] = json!(name);
            Some(format!("{} {:?} is not there", key, name))
        }
        6 => {
            // the location edges lead to is there twice
            let l = v["edges"].as_array()?.first()?["targetLocation"].clone();
            let twin = v["locations"].as_array()?.iter().find(|x| x["id"] == l)?.clone();
            v["locations"].as_array_mut()?.push(twin);
            Some("a location is there twice".into())
        }
        _ => {
            v["declarations"] = json!(*c.pick(&["clok x;", "clock", "float x;", "x, y;"]));
            let uses = |o: &Value| !o["guard"].as_str().unwrap_or("").is_empty() || !o["update"].as_str().unwrap_or("").is_empty() || !o["invariant"].as_str().unwrap_or("").is_empty();
            if !v["edges"].as_array()?.iter().chain(v["locations"].as_array()?).any(uses) && v["declarations"] == json!("clock") {
                return None;
            }
            Some("other declarations".into())
        }
    }
}

/// The same for XML.
fn spoil_xml(c: &mut Case, text: &mut String) -> Option<String> {
    let swap = |text: &mut String, c: &mut Case, from: &str, to: &str| {
        let all: Vec<usize> = text.match_indices(from).map(|m| m.0).collect();
        if all.is_empty() {
            return None;
        }
        let at = *c.pick(&all);
        text.replace_range(at..at + from.len(), to);
        Some(format!("{} instead of {}", to, from))
    };
    let (from, to) = match c.idx(7) {
        0 => {
            let n = 30 + c.idx(text.len() - 40);
            text.truncate((0..=n).rev().find(|i| text.is_char_boundary(*i))?);
            return Some("cut off".into());
        }
        1 => ("<source ref=\"L", "<source ref=\"M"),
        2 => ("<target ref=\"L", "<target ref=\"M"),
        3 => ("<source ref=", "<sauce ref="),
        4 => ("<target ref=\"L", "<target id=\"L"),
        5 => ("kind=\"guard\">", "kind=\"guard\">zz &lt;= 3 &amp;&amp; "),
        _ => ("kind=\"assignment\">", "kind=\"assignment\">x &lt;"),
    };
    swap(text, c, from, to)
}

fn broken(c: &mut Case) -> Res {
    let mut p = Params::new(&["i"], &["a", "b"]);
    p.clocks = 1 + c.idx(2);
    p.locs = 3;
    p.max_const = 3;
    p.deterministic = true;
    let m = gen_comp(c, "A", &p);
    let other = gen_comp(c, "B", &p);
    let xml = c.chance(1, 4);
    let (info, what, shown) = if xml {
        let mut text = xml_project(&[m.clone()]);
        let Some(what) = spoil_xml(c, &mut text) else { return c.discard() };
        let rest = text.find("<template>").unwrap_or(0);
        let shown = text[rest..].to_string();
        (xml_info(&text), what, shown)
    } else {
        let mut v: Value = serde_json::from_str(&m.json()).unwrap();
        let Some(what) = spoil(c, &mut v) else { return c.discard() };
        let mut texts = vec![v.to_string(), other.json()];
        if c.chance(1, 10) {
            let n = texts[0].len();
            texts[0].truncate(1 + c.idx(n - 1));
        }
        let shown = texts[0].clone();
        if c.chance(1, 2) {
            texts.reverse();
        }
        (json_info(&texts, 0), what, shown)
    };
    c.describe(format!("{}\nspoilt ({}): {}", m.show(), what, shown));
    c.class(if xml { "xml" } else { "json" });
    c.nontrivial(m.edges.len() >= 2);
    let queries: &[&str] = if xml {
        &["consistency: A", "determinism: A", "refinement: A <= A", "get-component: A save-as X", "reachability: A @ init -> A.L0"]
    } else {
        &["consistency: A", "determinism: A", "refinement: A <= B", "refinement: B <= A", "get-component: A save-as X", "reachability: A @ init -> A.L0", "consistency: (A && B)"]
    };
    for q in queries {
        for reduce in [false, true] {
            match ask_info(info.clone(), q, reduce) {
                Answer::Rejected(_) => c.class("rejected"),
                Answer::Internal(_) => c.class("internal error"),
                a => fail!("{}: {}", q, a.short()),
            }
        }
    }
    // the server is still there
    let a = ask_info(json_info(&[m.json()], 0), "determinism: A", false);
    check!(a.yes() || a.no(), "afterwards: {}", a.short());
    Ok(())
}

pub fn specs() -> Vec<Spec> {
    vec![Spec {
        id: "X01",
        prop: broken,
        quick: 12_000,
        thorough: 360_000,
        rule: "a random component as JSON or XML with one error in it at a random place, and seven queries that need it; non-trivial: at least two edges",
        assumptions: ASSUME,
        fixed: &[],
        floors: &[("json", 30.0), ("xml", 10.0)],
        threads: 8,
    }]
}
