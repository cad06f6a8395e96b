//! The command line tool on projects on disk: what the server says about the same components.
use crate::backend::{ask_info, json_info, Answer};
use crate::model::*;
use crate::systems::*;
use pbt::{check, fail, Case, Res, Spec};
use reveaal::ProtobufServer::services as pb;
use reveaal::ProtobufServer::services::query_response::Result as R;
use serde_json::json;
use std::path::PathBuf;
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicUsize, Ordering};

use super::server::outline;
use super::verdicts::ASSUME;

/// A folder that is removed again.
pub struct Scratch(pub PathBuf);
static COUNT: AtomicUsize = AtomicUsize::new(0);
impl Scratch {
    pub fn new() -> Scratch {
        let n = COUNT.fetch_add(1, Ordering::SeqCst);
        let p = std::env::temp_dir().join(format!("reveaal-check-{}-{}", std::process::id(), n));
        std::fs::create_dir_all(&p).expect("scratch folder");
        Scratch(p)
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

/// How it ended, and the lines with verdicts.
fn run(args: &[&str]) -> (Option<i32>, Vec<String>, String) {
    let exe = std::env::current_exe().expect("own path").with_file_name("Reveaal");
    let out = Command::new(exe).args(args).stdin(Stdio::null()).env("RUST_BACKTRACE", "0").output().expect("the command line tool");
    let text = String::from_utf8_lossy(&out.stdout).to_string();
    let lines = text.lines().filter(|l| l.contains(" -- ")).map(|l| l.rsplit(" -- ").next().unwrap_or("").to_string()).collect();
    (out.status.code(), lines, String::from_utf8_lossy(&out.stderr).to_string())
}

/// The declarations of the system, in one of the ways they may be written.
pub fn declare(c: &mut Case, comps: &[&Comp], io: bool) -> String {
    let names: Vec<&str> = comps.iter().map(|m| m.name.as_str()).collect();
    let nl = if c.chance(1, 6) { "\r\n" } else { "\n" };
    let mut s = String::new();
    if c.chance(1, 4) {
        s += c.pick(&["// what there is", " // system X;", "", "  "]);
        s += nl;
    }
    if c.chance(1, 8) {
        s += c.pick(&[" ", "\t"]);
    }
    let sep = *c.pick(&[", ", ", ", ",", " , ", ",  "]);
    s += &format!("system{}{}{}", c.pick(&[" ", " ", "  ", "\t"]), names.join(sep), c.pick(&[";", ";", " ;", "; ", "; // all"]));
    for m in comps.iter().filter(|_| io) {
        let acts: Vec<String> = m.inputs().iter().map(|a| format!("{}?", a)).chain(m.outputs().iter().map(|a| format!("{}!", a))).collect();
        if acts.is_empty() && c.chance(1, 2) {
            continue;
        }
        s += nl;
        if c.chance(1, 8) {
            s += nl;
            s += "// IO";
            s += nl;
        }
        let sep = *c.pick(&[", ", ",", ", ", " , "]);
        let (l, r) = *c.pick(&[(" { ", " }"), (" {", "}"), (" { ", " };"), ("{", "}"), ("  {", "} // IO")]);
        s += &format!("IO{}{}{}{}{}", c.pick(&[" ", " ", "  ", "\t"]), m.name, l, acts.join(sep), r);
    }
    if c.chance(1, 4) {
        s += nl;
    }
    s
}

fn project(c: &mut Case, dir: &PathBuf, comps: &[&Comp], xml: bool) -> PathBuf {
    let write = |p: PathBuf, t: &str| std::fs::write(p, t).expect("scratch file");
    let decl = declare(c, comps, true);
    c.append(&format!("\n{}", decl));
    if xml {
        let mut s = String::from("<?xml version=\"1.0\" encoding=\"utf-8\"?><nta><declaration></declaration>");
        comps.iter().for_each(|m| s += &m.template());
        s += &format!("<system>{}</system></nta>", decl);
        let p = dir.join("project.xml");
        write(p.clone(), &s);
        return p;
    }
    let p = dir.join(*c.pick(&["project", "a.b", "x y"]));
    std::fs::create_dir_all(p.join("Components")).expect("scratch folder");
    for m in comps {
        write(p.join("Components").join(format!("{}.json", m.name)), &m.json());
    }
    write(p.join("SystemDeclarations.json"), &json!({"name": "System Declarations", "declarations": decl}).to_string());
    let queries = match c.idx(3) {
        0 => json!([]),
        1 => json!([{"query": "", "comment": "nothing"}]),
        _ => json!([{"query": format!("consistency: {}", comps[0].name), "comment": "", "isPeriodic": false, "ignoredInputs": {}, "ignoredOutputs": {}, "backend": 1}]),
    };
    write(p.join("Queries.json"), &queries.to_string());
    p
}

/// Queries; those made by the tool are about X.
fn gen_queries(c: &mut Case, s: &Sys, t: &Sys) -> Vec<(String, Option<String>)> {
    let mut out = vec![];
    let mut made: Vec<String> = vec![];
    let n = 1 + c.idx(4);
    while out.len() < n {
        let side = if c.chance(2, 3) { s } else { t };
        let leaf = c.idx(side.comps.len());
        let one = side.leaf_text(leaf);
        let sys = match made.last() {
            Some(x) if c.chance(2, 3) => x.clone(),
            _ if c.chance(1, 3) => one.clone(),
            _ => side.text(),
        };
        let q = match c.idx(12) {
            0..=3 => (format!("refinement: {} <= {}", sys, if c.chance(1, 2) { t.text() } else { side.text() }), None),
            4 | 5 => (format!("consistency: {}", sys), None),
            6 | 7 => (format!("determinism: {}", sys), None),
            8 | 9 => (format!("reachability: {} @ init -> {}.L{}", side.text(), one, c.idx(3)), None),
            10 => {
                // under a new name, one that it had before, or that of a component
                let name = match c.idx(4) {
                    0 => one.clone(),
                    1 if !made.is_empty() => c.pick(&made).clone(),
                    _ => format!("X{}", made.len()),
                };
                made.push(name.clone());
                (format!("get-component: {} save-as {}", side.text(), name), Some(name))
            }
            _ => (c.pick(&["consistency: Missing", "specification: SA", "refinement: SA <= Missing"]).to_string(), None),
        };
        out.push(q);
    }
    out
}

fn name_of(text: &str) -> String {
    serde_json::from_str::<serde_json::Value>(text).expect("component")["name"].as_str().expect("name").to_string()
}

/// The locations and edges. The clocks may be in another order, and some have several names.
fn saved_as(text: &str, loose: bool) -> String {
    let Ok(mut v) = serde_json::from_str::<serde_json::Value>(text) else { return text.to_string() };
    for (list, fields) in [("locations", ["invariant", ""]), ("edges", ["guard", "update"])] {
        for x in v[list].as_array_mut().into_iter().flatten() {
            for f in fields {
                let mut parts: Vec<&str> = x[f].as_str().unwrap_or("").split([' ', '(', ')', ',']).collect();
                parts.sort();
                x[f] = json!(if loose { String::new() } else { parts.join(" ") });
            }
        }
    }
    outline(&v.to_string())
}

fn tool(c: &mut Case) -> Res {
    let (s, t) = super::composite::gen_sides(c);
    let queries = gen_queries(c, &s, &t);
    let xml = c.chance(1, 3);
    let reduce = c.chance(1, 4);
    let mut comps: Vec<&Comp> = vec![];
    for m in s.comps.iter().chain(&t.comps) {
        if comps.iter().all(|o| o.name != m.name) {
            comps.push(m);
        }
    }
    let sep = *c.pick(&["; ", ";", " ;\n"]);
    let text = queries.iter().map(|q| q.0.clone()).collect::<Vec<_>>().join(sep);
    c.describe(format!("{}\n{}{}\n{}", text, if xml { "xml" } else { "json" }, if reduce { ", clock reduction" } else { "" }, comps.iter().map(|m| m.show()).collect::<Vec<_>>().join("\n")));
    let dir = Scratch::new();
    let p = project(c, &dir.0, &comps, xml);
    // what the server says
    let mut texts: Vec<String> = comps.iter().map(|m| m.json()).collect();
    let mut want: Vec<&str> = vec![];
    let mut fails = false;
    let mut saved = vec![];
    // what is made of one that was made may have several clocks to name at will
    let loose = reduce || queries.iter().filter(|q| q.1.is_some()).count() > 1;
    for (q, made) in &queries {
        let a = ask_info(json_info(&texts, 0), q, reduce);
        match (&a, made) {
            (Answer::Yes(Some(R::Component(pb::Component { rep: Some(pb::component::Rep::Json(j)) }))), Some(name)) => {
                if xml {
                    fails = true;
                    break;
                }
                want.push("Component succesfully created");
                texts.retain(|t| name_of(t) != *name);
                texts.push(j.clone());
                saved.retain(|s: &(String, String)| s.0 != *name);
                saved.push((name.clone(), saved_as(j, loose)));
            }
            (Answer::Yes(_), None) => want.push("Property is satisfied"),
            (Answer::No(R::Model(_)), _) | (Answer::Rejected(_) | Answer::Internal(_), _) => {
                fails = true;
                break;
            }
            (Answer::No(_), None) => want.push("Property is NOT satisfied"),
            other => fail!("unexpected: {:?}", other),
        }
    }
    let path = p.to_string_lossy().to_string();
    let mut args = vec!["query"];
    if c.chance(1, 2) {
        args.extend(["-i", &path]);
    } else {
        args.extend(["--input-folder", &path]);
    }
    if reduce {
        args.push(*c.pick(&["-e", "--enable-clock-reduction"]));
    }
    args.push(&text);
    let (code, lines, err) = run(&args);
    let err: String = err.chars().take(600).collect();
    c.append(&format!("\nexit {:?}: {:?}\n{}", code, lines, err));
    c.nontrivial(true);
    if fails {
        c.class("cannot be done");
        check!(code.is_some_and(|k| k != 0), "the server cannot do one of these, but the tool ends with {:?}", code);
        return Ok(());
    }
    c.class(if xml { "xml" } else { "json" });
    for w in &want {
        c.class(*w);
    }
    check!(code == Some(0), "the tool ended with {:?}, the server says {:?}", code, want);
    check!(lines == want, "the tool says {:?}, the server {:?}", lines, want);
    for (name, o) in saved {
        let Ok(t) = std::fs::read_to_string(p.join("Components").join(format!("{}.json", name))) else { fail!("{} was not saved", name) };
        let t = saved_as(&t, loose);
        check!(t == o, "{} was saved as\n{}\nbut is\n{}", name, t, o);
    }
    Ok(())
}

pub fn specs() -> Vec<Spec> {
    vec![Spec {
        id: "A01",
        prop: tool,
        quick: 8_000,
        thorough: 200_000,
        rule: "a project on disk, JSON or XML, of the components of two random systems, and a list of 1 to 4 queries given to the command line tool; every case counts",
        assumptions: ASSUME,
        fixed: &[],
        floors: &[("xml", 10.0), ("json", 10.0), ("Property is satisfied", 20.0), ("Property is NOT satisfied", 8.0), ("Component succesfully created", 3.0), ("cannot be done", 5.0)],
        threads: 8,
    }]
}
