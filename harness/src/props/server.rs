//! The server over many requests: every answer is the one a new server would give.
use crate::backend::{json_info, send, xml_info, ConcreteEcdarBackend};
use crate::model::*;
use pbt::{check, fail, Case, Res, Spec};
use reveaal::ProtobufServer::services as pb;
use reveaal::ProtobufServer::services::ecdar_backend_server::EcdarBackend;
use reveaal::ProtobufServer::services::query_response::Result as R;
use std::collections::{BTreeMap, BTreeSet};
use tonic::{Request, Status};

use super::verdicts::ASSUME;

#[derive(Clone, Debug)]
enum Req {
    Query(pb::QueryRequest),
    Start(pb::SimulationStartRequest),
    /// The first decision that is offered is taken.
    Step(pb::SimulationStepRequest),
    Token,
}

/// What is compared.
#[derive(Clone, Debug, PartialEq)]
enum Reply {
    Query(i32, Box<Option<R>>),
    Sim(String),
    Token(i32),
    Error(String),
}

fn sim_reply(r: Result<pb::SimulationStepResponse, Status>) -> Reply {
    match r {
        Ok(r) => {
            let mut ds: Vec<String> = r.new_decision_points.iter().map(|d| format!("{:?}", d)).collect();
            ds.sort();
            Reply::Sim(format!("{:?} {:?}", r.full_state, ds))
        }
        Err(s) => error(s),
    }
}

fn error(s: Status) -> Reply {
    Reply::Error(format!("{:?}", s.code()))
}

fn answer(b: &ConcreteEcdarBackend, r: &Req) -> Reply {
    use futures::executor::block_on;
    match r {
        Req::Query(q) => match send(b, q.clone()) {
            Ok(r) => Reply::Query(r.query_id, Box::new(normal(r.result))),
            Err(s) => error(s),
        },
        Req::Start(q) => sim_reply(block_on(b.start_simulation(Request::new(q.clone()))).map(|r| r.into_inner())),
        Req::Step(q) => sim_reply(block_on(b.take_simulation_step(Request::new(q.clone()))).map(|r| r.into_inner())),
        Req::Token => match block_on(b.get_user_token(Request::new(()))) {
            Ok(t) => Reply::Token(t.into_inner().user_id),
            Err(s) => error(s),
        },
    }
}

/// Without what depends on the order of hash maps: which of several reasons is given.
fn normal(r: Option<R>) -> Option<R> {
    match r {
        Some(R::Refinement(_)) => Some(R::Refinement(Default::default())),
        Some(R::Consistency(_)) => Some(R::Consistency(Default::default())),
        Some(R::Determinism(_)) => Some(R::Determinism(Default::default())),
        Some(R::Reachability(_)) => Some(R::Reachability(Default::default())),
        Some(R::Model(_)) => Some(R::Model(Default::default())),
        Some(R::ReachabilityPath(_)) => Some(R::ReachabilityPath(Default::default())),
        Some(R::Component(pb::Component { rep: Some(pb::component::Rep::Json(text)) })) => {
            Some(R::Component(pb::Component { rep: Some(pb::component::Rep::Json(outline(&text))) }))
        }
        other => other,
    }
}

/// A component without its layout, which is random.
pub fn outline(text: &str) -> String {
    let Ok(v) = serde_json::from_str::<serde_json::Value>(text) else { return text.to_string() };
    let list = |key: &str, fields: &[&str]| {
        let all = v[key].as_array().cloned().unwrap_or_default();
        let mut all: Vec<String> = all.iter().map(|l| fields.iter().map(|f| l[*f].to_string()).collect::<Vec<_>>().join(" ")).collect();
        all.sort();
        all.join("; ")
    };
    format!(
        "{}: {} / {}",
        v["name"],
        list("locations", &["id", "type", "invariant"]),
        list("edges", &["sourceLocation", "targetLocation", "status", "sync", "guard", "update"])
    )
}

struct World {
    users: Vec<i32>,
    models: Vec<(pb::ComponentsInfo, Vec<Comp>)>,
}

const NAMES: [&str; 3] = ["A", "B", "C"];

/// Different numbers, mostly little different.
fn apart(c: &mut Case, n: usize) -> Vec<u32> {
    let mut v: Vec<u32> = vec![match c.idx(3) {
        0 => 1 + c.below(3) as u32,
        1 => c.below(1 << 32) as u32,
        _ => u32::MAX - c.below(3) as u32,
    }];
    while v.len() < n {
        let k = c.idx(v.len());
        let x = v[k];
        let y = match c.idx(6) {
            0..=2 => x ^ (1 << c.below(32)),
            3 => x.rotate_left(8 * (1 + c.below(3) as u32)),
            4 => x.wrapping_neg(),
            _ => x.wrapping_add(1),
        };
        // a hash of zero is none
        let y = if y == 0 || v.contains(&y) { (1..).find(|x| !v.contains(x)).unwrap_or(1) } else { y };
        v.push(y);
    }
    if v[0] == 0 {
        v[0] = (1..).find(|x| !v.contains(x)).unwrap_or(1);
    }
    v
}

fn gen_world(c: &mut Case) -> World {
    let n = 2 + c.idx(2);
    let mut models = vec![];
    for _ in 0..n {
        let mut comps = vec![];
        for name in NAMES {
            if !c.chance(4, 5) {
                continue;
            }
            let mut p = Params::new(&["i"], &["o"]);
            p.clocks = c.idx(2);
            p.locs = *c.pick(&[1, 2, 3]);
            p.max_const = 2;
            p.inv_pct = 30;
            p.deterministic = c.chance(2, 3);
            let mut m = gen_comp(c, name, &p);
            m.locs[0].inv.retain(|a| matches!(a.rel, Rel::Le | Rel::Lt));
            comps.push(m);
        }
        let mut texts: Vec<String> = comps.iter().map(|m| m.json()).collect();
        if c.chance(1, 8) {
            // one that cannot be read
            let p = Params::new(&["i"], &["o"]);
            let mut d = gen_comp(c, "D", &p);
            fill_alphabet(&mut d, &p);
            let text = d.json();
            let bad = match c.idx(5) {
                0 => "{\"name\": \"D\"".into(),
                1 => text.replace("INPUT", "BOTH"),
                2 => text.replace("\"guard\":\"", "\"guard\":\"x<"),
                3 => text.replace("INITIAL", "FIRST"),
                _ => text.replace("\"invariant\":\"", "\"invariant\":\"nothing>3 && "),
            };
            let at = c.idx(texts.len() + 1);
            texts.insert(at, bad);
        }
        let info = if c.chance(1, 4) && !comps.is_empty() {
            let mut text = xml_project(&comps);
            if c.chance(1, 8) {
                text.truncate(c.idx(text.len()));
            }
            xml_info(&text)
        } else {
            json_info(&texts, 0)
        };
        models.push((info, comps));
    }
    let users = 1 + c.idx(3);
    let users = apart(c, users).into_iter().map(|u| u as i32).collect();
    World { users, models }
}

fn gen_request(c: &mut Case, w: &World, hashes: &BTreeMap<(i32, usize), u32>) -> (String, Req) {
    let (text, mut r) = gen_wellformed(c, w, hashes);
    if !c.chance(1, 12) {
        return (text, r);
    }
    match cripple(c, &mut r) {
        Some(what) => (format!("{}, {}", text, what), r),
        None => (text, r),
    }
}

/// A part of the message is missing, or names what is not there.
fn cripple(c: &mut Case, r: &mut Req) -> Option<&'static str> {
    let kind = c.idx(4);
    match r {
        Req::Token => None,
        Req::Query(q) => {
            let (what, query) = match kind {
                0 => {
                    q.components_info = None;
                    return Some("without components");
                }
                1 => {
                    let info = q.components_info.as_mut()?;
                    info.components.clear();
                    info.components_hash = 0; // the hash was of other components
                    return Some("with no components");
                }
                2 => ("an empty query", ""),
                _ => ("two queries", "consistency: A; determinism: A"),
            };
            q.query = query.to_string();
            Some(what)
        }
        Req::Start(s) => match kind {
            0 => {
                s.simulation_info = None;
                Some("without information")
            }
            1 => {
                s.simulation_info.as_mut()?.components_info = None;
                Some("without components")
            }
            2 => {
                s.simulation_info.as_mut()?.component_composition = "(A".to_string();
                Some("a composition that is no expression")
            }
            _ => {
                s.simulation_info.as_mut()?.component_composition = "Nobody".to_string();
                Some("a component that is not there")
            }
        },
        Req::Step(s) => match kind {
            0 => {
                s.simulation_info = None;
                Some("without information")
            }
            1 => {
                s.chosen_decision = None;
                Some("without a decision")
            }
            2 => {
                s.chosen_decision.as_mut()?.source = None;
                Some("a decision without a source")
            }
            _ => {
                s.chosen_decision.as_mut()?.action = "nothing".to_string();
                Some("a decision with an unknown action")
            }
        },
    }
}

fn gen_wellformed(c: &mut Case, w: &World, hashes: &BTreeMap<(i32, usize), u32>) -> (String, Req) {
    if c.chance(1, 15) {
        return ("token".into(), Req::Token);
    }
    let user = *c.pick(&w.users);
    let k = c.idx(w.models.len());
    let mut info = w.models[k].0.clone();
    info.components_hash = if c.chance(1, 6) { 0 } else { hashes[&(user, k)] };
    let hash = info.components_hash;
    let known: Vec<String> = w.models[k].1.iter().map(|m| m.name.clone()).collect();
    let mut name = || match known.is_empty() || c.chance(1, 8) {
        true => c.pick(&NAMES).to_string(),
        false => c.pick(&known).clone(),
    };
    let (a, b) = (name(), name());
    let (a, b) = (a.as_str(), b.as_str());
    let kind = c.idx(13);
    let who = format!("user {} model {} hash {}", user, k, hash);
    if kind >= 10 {
        let composition = match c.idx(3) {
            0 => a.to_string(),
            1 => format!("({} && {})", a, b),
            _ => "D".to_string(),
        };
        let sim = pb::SimulationInfo { user_id: user, component_composition: composition.clone(), components_info: Some(info.clone()) };
        if kind == 12 {
            // some decision, as offered by a new server
            let fresh = ConcreteEcdarBackend::new(1, 1);
            let mut other = sim.clone();
            other.components_info.as_mut().unwrap().components_hash = 0;
            let first = pb::SimulationStartRequest { simulation_info: Some(other) };
            if let Ok(r) = futures::executor::block_on(fresh.start_simulation(Request::new(first))) {
                let mut ds = r.into_inner().new_decision_points;
                ds.sort_by_key(|d| format!("{:?}", d));
                if !ds.is_empty() {
                    let d = ds.swap_remove(c.idx(ds.len()));
                    let text = format!("{}: step {} by {}", who, composition, d.action);
                    return (text, Req::Step(pb::SimulationStepRequest { simulation_info: Some(sim), chosen_decision: Some(d) }));
                }
            }
        }
        return (format!("{}: start {}", who, composition), Req::Start(pb::SimulationStartRequest { simulation_info: Some(sim) }));
    }
    let query = match kind {
        0 => format!("refinement: {} <= {}", a, b),
        1 => format!("consistency: {}", a),
        2 => format!("determinism: {}", a),
        3 => format!("reachability: {} @ {} -> {}.L{}", a, *c.pick(&["init".to_string(), format!("{}.L1", a)]), a, c.idx(3)),
        4 => format!("get-component: {} save-as {}", a, *c.pick(&["X", b])),
        7 => format!("prune: {} save-as {}", a, *c.pick(&["X", b])),
        8 => c.pick(&["consistency: X", "implementation: A", "specification: A", "bisim-minim: A", "consistency: A\\B"]).to_string(),
        9 => format!("reachability: ({} || {}) @ init -> {}.L{} && {}.L{}", a, b, a, c.idx(3), b, c.idx(3)),
        5 => format!("refinement: {} <= ", a),
        _ => format!("consistency: ({} && {})", a, b),
    };
    let id = c.idx(1000) as i32;
    let settings = match c.idx(3) {
        0 => None,
        k => Some(pb::query_request::Settings { disable_clock_reduction: k == 1 }),
    };
    let text = format!("{}: [{}] {} {}", who, id, query, settings.as_ref().map_or("", |s| if s.disable_clock_reduction { "" } else { "reduced" }));
    (text, Req::Query(pb::QueryRequest { user_id: user, query_id: id, query, components_info: Some(info), settings }))
}

/// Per user and model a hash; different for the models of one user.
fn gen_hashes(c: &mut Case, w: &World) -> BTreeMap<(i32, usize), u32> {
    let mut out = BTreeMap::new();
    for u in w.users.iter().copied() {
        let pool = apart(c, w.models.len());
        for k in 0..w.models.len() {
            out.insert((u, k), pool[k]);
        }
    }
    out
}

fn show_world(w: &World) -> String {
    let mut s = String::new();
    for (k, (info, comps)) in w.models.iter().enumerate() {
        let how = if matches!(info.components.first().and_then(|c| c.rep.as_ref()), Some(pb::component::Rep::Xml(_))) { "xml" } else { "json" };
        let bad = if how == "json" && info.components.len() > comps.len() { ", one unreadable" } else { "" };
        s += &format!("model {} ({}{}): {}\n", k, how, bad, comps.iter().map(|m| m.show()).collect::<Vec<_>>().join("; "));
    }
    s
}

/// What a server that has seen nothing else says.
fn expected(r: &Req) -> Reply {
    answer(&ConcreteEcdarBackend::new(1, 5), r)
}

fn compare(c: &mut Case, what: &str, r: &Req, got: &Reply) -> Res {
    if let Req::Token = r {
        check!(matches!(got, Reply::Token(_)), "{}: no token: {:?}", what, got);
        return Ok(());
    }
    let want = expected(r);
    check!(*got == want, "{}: the answer is\n{:?}\nbut a new server answers\n{:?}", what, got, want);
    match (r, got) {
        (Req::Query(q), Reply::Query(id, res)) => {
            check!(*id == q.query_id, "{}: the answer is for query {}", what, id);
            c.class(match **res {
                Some(R::Success(_)) => "satisfied",
                Some(R::Component(_)) => "component",
                Some(R::Error(_)) => "error answer",
                _ => "not satisfied",
            });
        }
        (_, Reply::Error(e)) => c.class(if e.contains("Internal") { "internal" } else { "rejected" }),
        (_, Reply::Sim(_)) => c.class("simulation"),
        _ => {}
    }
    Ok(())
}

fn history(c: &mut Case) -> Res {
    let w = gen_world(c);
    let hashes = gen_hashes(c, &w);
    let size = 1 + c.idx(3);
    let b = ConcreteEcdarBackend::new(1, size);
    c.describe(format!("{}cache of {}", show_world(&w), size));
    let n = 4 + c.idx(7);
    let mut tokens = BTreeSet::new();
    let mut seen: BTreeMap<i32, BTreeSet<u32>> = BTreeMap::new();
    for _ in 0..n {
        let (text, r) = gen_request(c, &w, &hashes);
        c.append(&format!("\n{}", text));
        let got = answer(&b, &r);
        compare(c, &text, &r, &got)?;
        if let Reply::Token(t) = got {
            check!(tokens.insert(t), "token {} twice", t);
        }
        let of = match &r {
            Req::Query(q) => q.components_info.as_ref().map(|i| (q.user_id, i.components_hash)),
            _ => None,
        };
        if let Some((u, h)) = of {
            if h != 0 && !seen.entry(u).or_default().insert(h) {
                c.class("seen before");
            }
        }
    }
    c.nontrivial(seen.values().any(|h| h.len() > 1) || seen.len() > 1);
    Ok(())
}

fn at_once(c: &mut Case) -> Res {
    let w = gen_world(c);
    let hashes = gen_hashes(c, &w);
    let (size, threads) = (1 + c.idx(3), 1 + c.idx(3));
    let b = ConcreteEcdarBackend::new(threads, size);
    c.describe(format!("{}cache of {}, {} threads", show_world(&w), size, threads));
    let clients = 2 + c.idx(3);
    let mut scripts: Vec<Vec<(String, Req)>> = vec![];
    for k in 0..clients {
        let n = 2 + c.idx(3);
        let mut s = vec![];
        for _ in 0..n {
            let r = gen_request(c, &w, &hashes);
            c.append(&format!("\nclient {}: {}", k, r.0));
            s.push(r);
        }
        scripts.push(s);
    }
    let start = std::sync::Barrier::new(clients);
    let replies: Vec<(Vec<Reply>, Vec<Reply>)> = std::thread::scope(|sc| {
        let (b, start) = (&b, &start);
        let hs: Vec<_> = scripts
            .iter()
            .map(|s| {
                sc.spawn(move || {
                    start.wait();
                    let first: Vec<Reply> = (0..30).map(|_| answer(b, &Req::Token)).collect();
                    (first, s.iter().map(|(_, r)| answer(b, r)).collect::<Vec<_>>())
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap_or_default()).collect()
    });
    let mut tokens = BTreeSet::new();
    for (k, (s, (first, rs))) in scripts.iter().zip(&replies).enumerate() {
        for t in first {
            let Reply::Token(t) = t else { fail!("client {}: no token: {:?}", k, t) };
            check!(tokens.insert(*t), "token {} twice", t);
        }
        if s.len() != rs.len() {
            fail!("client {} got {} replies to {} requests", k, rs.len(), s.len());
        }
        for ((text, r), got) in s.iter().zip(rs) {
            compare(c, &format!("client {}, {}", k, text), r, got)?;
            if let Reply::Token(t) = got {
                check!(tokens.insert(*t), "token {} twice", t);
            }
        }
    }
    c.nontrivial(true);
    Ok(())
}

/// In a process of its own
pub fn nested_request() {
    let query = format!("consistency: {}A{}", "(".repeat(100_000), ")".repeat(100_000));
    let b = ConcreteEcdarBackend::new(1, 4);
    let r = crate::backend::request(json_info(&[], 0), &query, false);
    println!("{}", crate::backend::classify(send(&b, r)).short());
}

fn nested_request_ends_the_server() -> Result<(), String> {
    let status = std::process::Command::new(std::env::current_exe().unwrap())
        .arg("nested-request")
        .stdout(std::process::Stdio::null())
        .stderr(std::process::Stdio::null())
        .status()
        .map_err(|e| e.to_string())?;
    match status.code() {
        Some(0) => Ok(()),
        _ => Err("a query with 100000 nested parentheses ends the server instead of being answered or refused".into()),
    }
}

pub fn specs() -> Vec<Spec> {
    vec![
        Spec {
            id: "V01",
            prop: history,
            quick: 6_000,
            thorough: 200_000,
            rule: "a history of 4 to 10 requests of 1 to 3 users about 2 or 3 models to one server with a cache of 1 to 3; it counts if more than one model or user with a hash occurs in the queries",
            assumptions: ASSUME,
            fixed: &[],
            floors: &[("seen before", 20.0), ("internal", 10.0), ("rejected", 10.0), ("simulation", 20.0), ("satisfied", 20.0), ("component", 5.0)],
            threads: 8,
        },
        Spec {
            id: "V02",
            prop: at_once,
            quick: 5_000,
            thorough: 150_000,
            rule: "2 to 4 clients at the same time, each with 2 to 4 requests of 1 to 3 users about 2 or 3 models, to one server of 1 to 3 threads and a cache of 1 to 3; every case counts",
            assumptions: ASSUME,
            fixed: &[("nested-request", nested_request_ends_the_server)],
            floors: &[("internal", 10.0), ("rejected", 10.0), ("simulation", 20.0), ("satisfied", 20.0)],
            threads: 8,
        },
    ]
}
