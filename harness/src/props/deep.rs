//! Long paths: components with more than a thousand locations in a row, and locations that are
//! left after a clock has counted to a thousand. What is true of them follows from how they are
//! built, and nothing may depend on how long a path is. The answers come from the threads of the
//! server, with the stack they have in the server.
use crate::backend::{ask_info, json_info, Answer};
use crate::model::*;
use pbt::{check, fail, Case, Res, Spec};
use reveaal::ProtobufServer::services as pb;
use reveaal::ProtobufServer::services::query_response::Result as R;

use super::verdicts::ASSUME;

#[derive(Clone, Copy, Debug)]
enum Step {
    /// An output, with an invariant or without
    Out(Option<i64>),
    In,
    /// The clock y counts by rounds of x before an output is possible
    Count(i64),
}

struct Line {
    steps: Vec<Step>,
    /// The step that is missing, or that can never be taken
    cut: Option<usize>,
    missing: bool,
    /// A step with a second edge beside it
    double: Option<usize>,
    /// A location with an output of its own
    extra: Option<usize>,
    back: bool,
}

const X: usize = 0;
const Y: usize = 1;

fn at(clock: usize, rel: Rel, bound: i64) -> Atom {
    Atom { clock, rel, bound }
}

fn comp(l: &Line, name: &str, with_extra: bool) -> Comp {
    let n = l.steps.len();
    let mut m = Comp {
        name: name.into(),
        clocks: vec!["x".into(), "y".into()],
        locs: vec![],
        edges: vec![],
        stars: false,
    };
    for i in 0..=n {
        let inv = match l.steps.get(i) {
            Some(Step::Out(Some(h))) => vec![at(X, Rel::Le, *h)],
            Some(Step::Count(_)) => vec![at(X, Rel::Le, 1)],
            _ => vec![],
        };
        let kind = if i == 0 { LocKind::Initial } else { LocKind::Normal };
        m.locs.push(Loc { id: format!("L{}", i), kind, inv });
    }
    let mut add = |src: usize, tgt: usize, input: bool, action: &str, guard: Vec<Atom>, resets: Vec<(usize, i64)>| {
        let id = format!("E{}", m.edges.len());
        m.edges.push(Edge { id, src, tgt, input, action: action.into(), guard: if guard.is_empty() { vec![] } else { vec![guard] }, resets });
    };
    for (i, s) in l.steps.iter().enumerate() {
        let (input, action, mut guard) = match s {
            Step::Out(h) => (false, if i % 3 == 0 { "b" } else { "a" }, vec![at(X, Rel::Ge, h.unwrap_or(2).min(2))]),
            Step::In => (true, "i", vec![at(X, Rel::Ge, 1)]),
            Step::Count(k) => {
                add(i, i, false, "a", vec![at(X, Rel::Ge, 1)], vec![(X, 0)]);
                (false, "b", vec![at(Y, Rel::Ge, *k)])
            }
        };
        if l.cut == Some(i) {
            if l.missing {
                continue;
            }
            guard = vec![at(X, Rel::Ge, 5), at(X, Rel::Le, 4)];
        }
        let resets: Vec<_> = match l.steps.get(i + 1) {
            Some(Step::Count(_)) => vec![(X, 0), (Y, 0)],
            _ => vec![(X, 0)],
        };
        add(i, i + 1, input, action, guard.clone(), resets.clone());
        if l.double == Some(i) {
            add(i, i + 1, input, action, guard, resets);
        }
    }
    if l.back {
        add(n, 0, false, "a", vec![], vec![(X, 0), (Y, 0)]);
    }
    match l.extra {
        Some(i) if with_extra => add(i, i, false, "c", vec![], vec![]),
        // So that both know the action
        _ => add(n, n, false, "c", vec![at(X, Rel::Ge, 5), at(X, Rel::Le, 4)], vec![]),
    }
    m
}

impl Line {
    fn reached(&self, i: usize) -> bool {
        self.cut.map_or(true, |c| i <= c)
    }
    fn consistent(&self) -> bool {
        let Some(cut) = self.cut else { return true };
        // The last location that is reached must be left in time, and cannot be. What comes
        // before it fails as well, down to a location where time can pass or that can go round.
        matches!(self.steps[cut], Step::In | Step::Out(None) | Step::Count(_))
            || self.steps[..cut].iter().any(|s| matches!(s, Step::Out(None) | Step::Count(_)))
    }
}

fn gen_line(c: &mut Case) -> Line {
    let short = c.chance(1, 3);
    let n = if short { 1 + c.idx(60) } else { 1000 + c.idx(800) };
    let patterns: Vec<Step> = (0..1 + c.idx(5))
        .map(|_| match c.idx(6) {
            0..=2 => Step::Out(Some(1 + c.idx(4) as i64)),
            3 | 4 => Step::In,
            _ => Step::Out(None),
        })
        .collect();
    // Most lines fail all the way back when they fail at all
    let strict = c.chance(2, 3);
    let steps = (0..n)
        .map(|i| match patterns[i % patterns.len()] {
            Step::Out(None) if strict => Step::In,
            s => s,
        })
        .collect::<Vec<_>>();
    let mut l = Line { steps, cut: None, missing: c.chance(1, 2), double: None, extra: None, back: c.chance(1, 2) };
    if short {
        let i = c.idx(n);
        l.steps[i] = Step::Count(1000 + c.idx(400) as i64);
    }
    // Near the end, so that a long path leads there
    let place = |c: &mut Case| n - 1 - c.idx(n.min(20));
    if c.chance(1, 2) {
        let mut cut = place(c);
        if c.chance(2, 3) {
            // at a location that has to be left
            while cut > 0 && matches!(l.steps[cut], Step::In | Step::Out(None)) {
                cut -= 1;
            }
        }
        l.cut = Some(cut);
    }
    match c.idx(3) {
        0 => {
            let i = place(c);
            if l.cut != Some(i) {
                l.double = Some(i);
            }
        }
        1 => l.extra = Some(place(c)),
        _ => {}
    }
    l
}

fn number_of_locations(r: &Answer) -> Result<usize, String> {
    match r {
        Answer::Yes(Some(R::Component(pb::Component { rep: Some(pb::component::Rep::Json(text)) }))) => {
            let v: serde_json::Value = serde_json::from_str(text).map_err(|e| e.to_string())?;
            Ok(v["locations"].as_array().map_or(0, |a| a.len()))
        }
        other => Err(other.short()),
    }
}

fn long(c: &mut Case) -> Res {
    let l = gen_line(c);
    let n = l.steps.len();
    let (a, b) = (comp(&l, "A", true), comp(&l, "B", false));
    let count = l.steps.iter().find_map(|s| match s {
        Step::Count(k) => Some(*k),
        _ => None,
    });
    c.describe(format!(
        "{} steps, starting {:?}; counting {:?}; cut at {:?} ({}); doubled {:?}; own output {:?}; back at the end {}",
        n,
        &l.steps[..n.min(8)],
        count,
        l.cut,
        if l.missing { "edge missing" } else { "guard false" },
        l.double,
        l.extra,
        l.back
    ));
    let deterministic = !l.double.map_or(false, |d| l.reached(d));
    let consistent = l.consistent();
    let end = l.cut.is_none();
    let refines = !l.extra.map_or(false, |e| l.reached(e));
    let info = json_info(&[a.json(), b.json()], 0);
    let reduce = c.chance(1, 4);
    let last = format!("A.L{}", n);
    // With an output of its own, a location of A need not be stuck
    let a_consistent = consistent || l.extra.map_or(false, |e| l.reached(e));
    let mut kinds = vec![0, 1, 2, 3, 4, 5, 6];
    c.shuffle(&mut kinds);
    for kind in kinds.into_iter().take(3) {
        let (query, want) = match kind {
            0 => ("determinism: A".to_string(), deterministic),
            1 if deterministic => ("consistency: B".to_string(), consistent),
            2 => (format!("reachability: A @ init -> {}", last), end),
            3 if deterministic => ("consistency: A && B".to_string(), consistent),
            4 if deterministic && consistent && a_consistent && count.is_none() => ("refinement: A <= B".to_string(), refines),
            5 if deterministic && consistent && a_consistent && count.is_none() => ("refinement: B <= A".to_string(), true),
            6 if deterministic && consistent && end => ("get-component: B save-as C".to_string(), true),
            _ => continue,
        };
        // Clock reduction looks at all pairs of locations of a conjunction
        let r = ask_info(info.clone(), &query, reduce && kind != 3);
        c.class(format!("{} {}", query.split(':').next().unwrap(), want));
        if kind == 6 {
            match number_of_locations(&r) {
                Err(e) => fail!("{}: {}", query, e),
                Ok(k) => check!(k == n + 1, "{}: {} locations instead of {}", query, k, n + 1),
            }
            continue;
        }
        // A conjunction that is not consistent is refused when it is built
        let refused = kind == 3 && matches!(r, Answer::Rejected(_) | Answer::No(_));
        check!(if want { r.yes() } else { r.no() || refused }, "{}: expected {}, got {}", query, want, r.short());
        c.nontrivial(n > 900 || count.is_some());
    }
    if count.is_some() {
        c.class("counting");
    }
    Ok(())
}

pub fn specs() -> Vec<Spec> {
    vec![Spec {
        id: "Z01",
        prop: long,
        quick: 300,
        thorough: 6_000,
        rule: "a component of 1000 to 1800 locations in a row, or of up to 60 where one is left when a clock has counted to 1000 or more; three questions, with the answers known from how it is built; non-trivial: the path is that long",
        assumptions: ASSUME,
        fixed: &[],
        floors: &[("determinism false", 5.0), ("consistency false", 5.0), ("consistency true", 5.0), ("reachability true", 5.0), ("reachability false", 5.0), ("refinement true", 3.0), ("get-component true", 1.0), ("counting", 10.0)],
        threads: 8,
    }]
}
