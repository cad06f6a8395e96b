//! Guards, updates, queries and identifiers as text.
use pbt::{check, fail, guarded, Case, Res, Spec};
use edbm::util::constraints::Inequality::{LE, LS};
use edbm::zones::OwnedFederation;
use reveaal::DataReader::parse_edge::{parse_guard, parse_updates};
use reveaal::EdgeEval::constraint_applyer::apply_constraints_to_state;
use reveaal::ModelObjects::Declarations;
use reveaal::ModelObjects::Expressions::BoolExpression;
use std::collections::HashMap;

use super::verdicts::ASSUME;

// ---------------------------------------------------------------- expressions

#[derive(Clone, Debug)]
pub enum AE {
    Int(i64),
    Name(usize),
    Bin(char, Box<AE>, Box<AE>),
}
#[derive(Clone, Debug)]
pub enum BE {
    Bool(bool),
    Cmp(&'static str, AE, AE),
    And(Box<BE>, Box<BE>),
    Or(Box<BE>, Box<BE>),
}

/// What names stand for: clocks first (in quarters), then integers.
struct Env {
    names: Vec<String>,
    clocks: usize,
}

fn bin(op: char, l: AE, r: AE) -> AE {
    AE::Bin(op, Box::new(l), Box::new(r))
}

fn has_clock(e: &AE, clocks: usize) -> bool {
    match e {
        AE::Int(_) => false,
        AE::Name(i) => *i < clocks,
        AE::Bin(_, l, r) => has_clock(l, clocks) || has_clock(r, clocks),
    }
}

/// In quarters.
fn eval(e: &AE, env: &[i64], clocks: usize) -> i64 {
    match e {
        AE::Int(v) => 4 * v,
        AE::Name(i) => env[*i],
        AE::Bin(op, l, r) => {
            let (a, b) = (eval(l, env, clocks), eval(r, env, clocks));
            match op {
                '+' => a + b,
                '-' => a - b,
                '*' => (a / 4) * b,
                '/' => 4 * ((a / 4) / (b / 4)),
                _ => 4 * ((a / 4) % (b / 4)),
            }
        }
    }
}
fn holds(e: &BE, env: &[i64], clocks: usize) -> bool {
    match e {
        BE::Bool(b) => *b,
        BE::Cmp(rel, l, r) => {
            let (a, b) = (eval(l, env, clocks), eval(r, env, clocks));
            match *rel {
                "<=" => a <= b,
                "<" => a < b,
                ">=" => a >= b,
                ">" => a > b,
                _ => a == b,
            }
        }
        BE::And(l, r) => holds(l, env, clocks) && holds(r, env, clocks),
        BE::Or(l, r) => holds(l, env, clocks) || holds(r, env, clocks),
    }
}

/// A constant expression with a value in a small range.
fn gen_const(c: &mut Case, env: &Env, ints: &[i64], depth: u32) -> AE {
    if depth == 0 || c.chance(3, 5) {
        if env.names.len() > env.clocks && c.chance(1, 4) {
            return AE::Name(env.clocks + c.idx(env.names.len() - env.clocks));
        }
        return AE::Int(c.range(0, 8));
    }
    let l = gen_const(c, env, ints, depth - 1);
    let op = *c.pick(&['+', '-', '*', '/', '%']);
    let mut r = gen_const(c, env, ints, depth - 1);
    if op == '/' || op == '%' {
        let full: Vec<i64> = vec![0; env.clocks].into_iter().chain(ints.iter().map(|v| 4 * v)).collect();
        if eval(&r, &full, env.clocks) == 0 {
            r = AE::Int(3);
        }
    }
    bin(op, l, r)
}

/// Adds constants around a clock. Longer sums that also subtract are a known finding.
fn pad(c: &mut Case, env: &Env, ints: &[i64], mut e: AE) -> AE {
    match c.below(5) {
        0 => {}
        1 => {
            let k = gen_const(c, env, ints, 2);
            e = bin('-', e, k);
        }
        _ => {
            for _ in 0..1 + c.below(2) {
                let k = gen_const(c, env, ints, 1);
                e = if c.chance(1, 2) { bin('+', e, k) } else { bin('+', k, e) };
            }
        }
    }
    e
}

fn gen_cmp(c: &mut Case, env: &Env, ints: &[i64]) -> BE {
    let rel = *c.pick(&["<=", "<", ">=", ">", "=="]);
    let x = c.idx(env.clocks);
    let diff = env.clocks > 1 && c.chance(2, 5);
    let (mut l, mut r) = if diff {
        let y = (x + 1 + c.idx(env.clocks - 1)) % env.clocks;
        // Sums that contain a difference of clocks are a known finding.
        match c.below(2) {
            // x + k ~ y + k
            0 => {
                let l = pad(c, env, ints, AE::Name(x));
                (l, pad(c, env, ints, AE::Name(y)))
            }
            // x - y ~ k
            _ => {
                let d = bin('-', AE::Name(x), AE::Name(y));
                (d, gen_const(c, env, ints, 2))
            }
        }
    } else {
        let l = if c.chance(1, 5) {
            let k = gen_const(c, env, ints, 1);
            bin('-', k, AE::Name(x))
        } else {
            pad(c, env, ints, AE::Name(x))
        };
        (l, gen_const(c, env, ints, 2))
    };
    if c.chance(1, 3) {
        std::mem::swap(&mut l, &mut r);
    }
    BE::Cmp(rel, l, r)
}

fn gen_bool(c: &mut Case, env: &Env, ints: &[i64], depth: u32) -> BE {
    if depth == 0 || c.chance(1, 3) {
        if c.chance(1, 12) {
            return BE::Bool(c.chance(1, 2));
        }
        return gen_cmp(c, env, ints);
    }
    let l = Box::new(gen_bool(c, env, ints, depth - 1));
    let r = Box::new(gen_bool(c, env, ints, depth - 1));
    if c.chance(1, 2) {
        BE::Or(l, r)
    } else {
        BE::And(l, r)
    }
}

fn sp(c: &mut Case) -> &'static str {
    *c.pick(&["", " ", "", "\n", "  ", "\t", " "])
}

fn arith_text(c: &mut Case, e: &AE, env: &Env, level: u32) -> String {
    let (text, own) = match e {
        AE::Int(v) => (v.to_string(), 3),
        AE::Name(i) => (env.names[*i].clone(), 3),
        AE::Bin(op, l, r) => {
            let own = if matches!(op, '+' | '-') { 1 } else { 2 };
            let l = arith_text(c, l, env, own);
            let r = arith_text(c, r, env, own + 1);
            (format!("{}{}{}{}{}", l, sp(c), op, sp(c), r), own)
        }
    };
    if own < level || c.chance(1, 10) {
        format!("({}{}{})", sp(c), text, sp(c))
    } else {
        text
    }
}
/// Disjunction binds more tightly than conjunction.
fn bool_text(c: &mut Case, e: &BE, env: &Env, level: u32) -> String {
    let (text, own) = match e {
        BE::Bool(b) => (b.to_string(), 3),
        BE::Cmp(rel, l, r) => {
            let l = arith_text(c, l, env, 0);
            let r = arith_text(c, r, env, 0);
            (format!("{}{}{}{}{}", l, sp(c), rel, sp(c), r), 3)
        }
        BE::And(l, r) => {
            let (l, r) = (bool_text(c, l, env, 1), bool_text(c, r, env, 2));
            (format!("{}{}&&{}{}", l, sp(c), sp(c), r), 1)
        }
        BE::Or(l, r) => {
            let (l, r) = (bool_text(c, l, env, 2), bool_text(c, r, env, 3));
            (format!("{}{}||{}{}", l, sp(c), sp(c), r), 2)
        }
    };
    if own < level || c.chance(1, 10) {
        format!("({}{}{})", sp(c), text, sp(c))
    } else {
        text
    }
}

fn gen_env(c: &mut Case) -> (Env, Vec<i64>, Declarations) {
    let all = [["x", "y", "z"], ["x", "x1", "x_1"], ["true1", "or2", "and_"], ["Aa", "a", "A"]];
    let clocks = 1 + c.idx(3);
    let mut names: Vec<String> = c.pick(&all)[..clocks].iter().map(|s| s.to_string()).collect();
    let nints = c.idx(3);
    let ints: Vec<i64> = (0..nints).map(|_| c.range(0, 6)).collect();
    for i in 0..nints {
        names.push(["n", "limit_2"][i].to_string());
    }
    let mut idx: Vec<usize> = (1..=clocks).collect();
    c.shuffle(&mut idx);
    let decls = Declarations {
        clocks: (0..clocks).map(|i| (names[i].clone(), idx[i])).collect(),
        ints: (0..nints).map(|i| (names[clocks + i].clone(), ints[i] as i32)).collect(),
    };
    (Env { names, clocks }, ints, decls)
}

/// All valuations that no constraint with integer bounds tells apart from this one.
fn cell(vals: &[i64]) -> OwnedFederation {
    let n = vals.len();
    let mut fed = OwnedFederation::universe(n);
    for i in 0..n {
        for j in 0..n {
            if i != j {
                let d = vals[i] - vals[j];
                let b = if d.rem_euclid(4) == 0 { LE((d / 4) as i32) } else { LS(d.div_euclid(4) as i32 + 1) };
                fed = fed.constrain(i, j, b);
            }
        }
    }
    fed
}

fn gen_vals(c: &mut Case, clocks: usize, top: i64) -> Vec<i64> {
    (0..clocks).map(|_| if c.chance(1, 2) { 4 * c.range(0, top) } else { c.range(0, 4 * top) }).collect()
}

/// Names in order of the indices the declarations give them.
fn by_index(vals: &[i64], env: &Env, decls: &Declarations) -> Vec<i64> {
    let mut out = vec![0; env.clocks + 1];
    for i in 0..env.clocks {
        out[decls.clocks[&env.names[i]]] = vals[i];
    }
    out
}

fn sizes(e: &BE) -> usize {
    match e {
        BE::Bool(_) | BE::Cmp(..) => 1,
        BE::And(l, r) | BE::Or(l, r) => sizes(l) + sizes(r),
    }
}

fn compare(c: &mut Case, g: &BoolExpression, e: &BE, env: &Env, ints: &[i64], decls: &Declarations, what: &str) -> Res {
    let (mut yes, mut no) = (0, 0);
    for _ in 0..24 {
        let vals = gen_vals(c, env.clocks, 10);
        let mut full = vals.clone();
        full.extend(ints.iter().map(|v| 4 * v));
        let expected = holds(e, &full, env.clocks);
        let cell = cell(&by_index(&vals, env, decls));
        let got = match guarded(|| apply_constraints_to_state(g, decls, cell.clone())) {
            Ok(Ok(f)) => f,
            Ok(Err(m)) => fail!("{}: cannot be applied: {}", what, m),
            Err(m) => fail!("{}: panics when applied: {}", what, m),
        };
        if expected {
            yes += 1;
            check!(
                got.equals(&cell),
                "{}: holds at {:?} quarters of {:?}, but is not satisfied there",
                what,
                vals,
                env.names
            );
        } else {
            no += 1;
            check!(got.is_empty(), "{}: does not hold at {:?} quarters of {:?}, but is satisfied there", what, vals, env.names);
        }
    }
    if yes > 0 && no > 0 {
        c.class("holds here and not there");
        c.nontrivial(true);
    }
    Ok(())
}

fn guard_meaning(c: &mut Case) -> Res {
    let (env, ints, decls) = gen_env(c);
    let e = gen_bool(c, &env, &ints, 3);
    let mut text = bool_text(c, &e, &env, 0);
    let mut e = e;
    if c.chance(1, 30) {
        e = BE::Bool(true);
        text = sp(c).to_string();
    }
    if c.chance(1, 8) {
        text += ";";
    }
    c.describe(format!("{:?} with {:?} = {:?}", text, &env.names[env.clocks..], ints));
    if sizes(&e) > 1 {
        c.class("several comparisons");
    }
    let g = match guarded(|| parse_guard(&text)) {
        Ok(Ok(g)) => g,
        Ok(Err(m)) => fail!("not accepted: {}", m),
        Err(m) => fail!("panics: {}", m),
    };
    compare(c, &g, &e, &env, &ints, &decls, "the guard")
}

fn guard_roundtrip(c: &mut Case) -> Res {
    let (env, ints, decls) = gen_env(c);
    let e = gen_bool(c, &env, &ints, 3);
    let text = bool_text(c, &e, &env, 0);
    c.describe(format!("{:?} with {:?} = {:?}", text, &env.names[env.clocks..], ints));
    if sizes(&e) > 1 {
        c.class("several comparisons");
    }
    let g = parse_guard(&text)?;
    let written = g.encode_expr();
    c.append(&format!(" written {:?}", written));
    let again = match guarded(|| parse_guard(&written)) {
        Ok(Ok(g)) => g,
        Ok(Err(m)) => fail!("written as {:?}, which is not accepted: {}", written, m),
        Err(m) => fail!("written as {:?}, which panics: {}", written, m),
    };
    compare(c, &again, &e, &env, &ints, &decls, &format!("written as {:?}", written))
}


// ---------------------------------------------------------------- updates

fn update_meaning(c: &mut Case) -> Res {
    let (env, ints, decls) = gen_env(c);
    let n = 1 + c.idx(4);
    let mut want: Vec<(usize, i64)> = vec![];
    let mut text = sp(c).to_string();
    let no_ints = Env { names: env.names[..env.clocks].to_vec(), clocks: env.clocks };
    for k in 0..n {
        let x = c.idx(env.clocks);
        let e = gen_const(c, &no_ints, &[], 3);
        let v = eval(&e, &[0; 3], env.clocks) / 4;
        let e = if v < 0 { bin('+', e, AE::Int(-v)) } else { e };
        want.push((x, v.max(0)));
        if k > 0 {
            text += ",";
        }
        text += &format!("{}{}{}{}{}{}{}", sp(c), env.names[x], sp(c), c.pick(&["=", ":="]), sp(c), arith_text(c, &e, &env, 0), sp(c));
    }
    if c.chance(1, 6) {
        text += ",";
    }
    c.describe(format!("{:?} ({} ints)", text, ints.len()));
    let mut set: Vec<usize> = want.iter().map(|w| w.0).collect();
    set.sort();
    set.dedup();
    c.nontrivial(n > 1);
    if set.len() < n {
        c.class("assigned twice");
    }
    let updates = match guarded(|| parse_updates(&text)) {
        Ok(Ok(u)) => u,
        Ok(Err(m)) => fail!("not accepted: {}", m),
        Err(m) => fail!("panics: {}", m),
    };
    check!(updates.len() == n, "{} assignments were read", updates.len());
    let written: Vec<String> = updates.iter().map(|u| format!("{}={}", u.get_variable_name(), u.get_expression().encode_expr())).collect();
    let again = parse_updates(&written.join(", "))?;
    check!(again == updates, "written as {:?} it reads {:?}", written, again);
    for _ in 0..6 {
        let mut vals = gen_vals(c, env.clocks, 8);
        let mut fed = cell(&by_index(&vals, &env, &decls));
        for u in &updates {
            fed = u.compiled(&decls).apply(fed);
        }
        for (x, v) in &want {
            vals[*x] = 4 * v;
        }
        check!(fed.equals(&cell(&by_index(&vals, &env, &decls))), "the clocks {:?} should be {:?} quarters afterwards", env.names, vals);
        // as a condition: all clocks have the assigned values
        let mut fed = OwnedFederation::universe(env.clocks + 1);
        for x in &set {
            let (last, v) = want.iter().enumerate().filter(|(_, w)| w.0 == *x).map(|(k, w)| (k, w.1)).last().unwrap();
            let upd = updates[last].compiled(&decls);
            fed = upd.apply_as_guard(fed);
            let mut other = vals.clone();
            other[*x] = 4 * v + c.range(1, 3);
            let out = upd.apply_as_guard(cell(&by_index(&other, &env, &decls)));
            check!(out.is_empty(), "a value other than {} of {} counts as assigned", v, env.names[*x]);
        }
        check!(cell(&by_index(&vals, &env, &decls)).subset_eq(&fed), "the assigned values do not count as assigned");
        // as a wish for any value
        let x = *c.pick(&set);
        let last = want.iter().rposition(|w| w.0 == x).unwrap();
        let upd = updates[last].compiled(&decls);
        let freed = upd.apply_as_free(cell(&by_index(&vals, &env, &decls)));
        let mut other = vals.clone();
        other[x] = c.range(0, 40);
        check!(cell(&by_index(&other, &env, &decls)).subset_eq(&freed), "{} is still bound", env.names[x]);
        if env.clocks > 1 {
            let y = (x + 1) % env.clocks;
            other[y] += c.range(4, 9);
            let out = cell(&by_index(&other, &env, &decls));
            check!(!out.has_intersection(&freed), "{} is no longer bound", env.names[y]);
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- sets of valuations as text

fn zone_text(c: &mut Case) -> Res {
    let (env, _, mut decls) = gen_env(c);
    decls.ints.clear();
    let n = env.clocks + 1;
    let mut fed: Option<OwnedFederation> = None;
    let zones = 1 + c.idx(3);
    let mut shown = vec![];
    for _ in 0..zones {
        let mut z = OwnedFederation::universe(n);
        for _ in 0..c.below(5) {
            let (i, j) = (c.idx(n), c.idx(n));
            if i == j {
                continue;
            }
            let b = c.range(-8, 8) as i32;
            let b = if i == 0 { -b.abs() } else if j == 0 { b.abs() } else { b };
            let strict = c.chance(1, 3);
            shown.push(format!("{}-{}{}{}", i, j, if strict { "<" } else { "<=" }, b));
            z = z.constrain(i, j, if strict { LS(b) } else { LE(b) });
        }
        shown.push("|".into());
        fed = Some(match fed {
            None => z,
            Some(f) => f.union(&z),
        });
    }
    let fed = fed.unwrap();
    c.describe(format!("{} over {:?}", shown.join(" "), decls.clocks));
    let disj = fed.minimal_constraints();
    let expr = BoolExpression::from_disjunction(&disj, &decls.clocks);
    let text = expr.map(|e| e.encode_expr()).unwrap_or_default();
    c.append(&format!(" written {:?}", text));
    let g = match guarded(|| parse_guard(&text)) {
        Ok(Ok(g)) => g,
        Ok(Err(m)) => fail!("written as {:?}, which is not accepted: {}", text, m),
        Err(m) => fail!("written as {:?}, which panics: {}", text, m),
    };
    let (mut yes, mut no) = (0, 0);
    for _ in 0..30 {
        let vals = gen_vals(c, env.clocks, 10);
        let cell = cell(&by_index(&vals, &env, &decls));
        let want = cell.subset_eq(&fed);
        let got = apply_constraints_to_state(&g, &decls, cell.clone())?;
        if want {
            yes += 1;
            check!(got.equals(&cell), "written as {:?}: {:?} quarters of {:?} are lost", text, vals, env.names);
        } else {
            no += 1;
            check!(got.is_empty(), "written as {:?}: {:?} quarters of {:?} are added", text, vals, env.names);
        }
    }
    c.nontrivial(yes > 0 && no > 0);
    if zones > 1 && yes > 0 && no > 0 {
        c.class("several zones");
    }
    Ok(())
}

/// One guard over the clocks x and y, at one point (in quarters).
fn at(text: &str, x: i64, y: i64, want: bool) -> Result<(), String> {
    let decls = Declarations {
        clocks: [("x".to_string(), 1), ("y".to_string(), 2)].into_iter().collect(),
        ints: HashMap::new(),
    };
    let g = parse_guard(text)?;
    let cell = cell(&[0, x, y]);
    let got = guarded(|| apply_constraints_to_state(&g, &decls, cell.clone())).map_err(|m| format!("{} panics: {}", text, m))??;
    if got.is_empty() == want {
        return Err(format!("{} with x={}/4 y={}/4 should be {}", text, x, y, want));
    }
    Ok(())
}
fn sum_with_subtraction() -> Result<(), String> {
    at("x-1+1<=0", 4, 0, false)?;
    at("x-1+1<=0", 0, 0, true)
}
fn sum_with_difference() -> Result<(), String> {
    at("x-y+1<=0", 4, 8, true)?;
    at("x-y+1<=0", 4, 4, false)
}
fn nested_subtraction() -> Result<(), String> {
    at("5-(x-2)<=1", 24, 0, true)?;
    at("5-(x-2)<=1", 20, 0, false)
}
fn no_clocks() -> Result<(), String> {
    at("1<=2", 4, 8, true)?;
    at("2<=1", 4, 8, false)
}

pub fn specs() -> Vec<Spec> {
    vec![
        Spec {
            id: "E01",
            prop: guard_meaning,
            quick: 60_000,
            thorough: 2_000_000,
            rule: "a random guard text (up to 8 comparisons over 1-3 clocks, integer names and constants; minimal or redundant parentheses and white space), evaluated at 24 random valuations; non-trivial: it holds at some and not at others",
            assumptions: ASSUME,
            fixed: &[
                ("sum-with-subtraction", sum_with_subtraction),
                ("sum-with-difference", sum_with_difference),
                ("nested-subtraction", nested_subtraction),
                ("comparison-without-clocks", no_clocks),
            ],
            floors: &[("holds here and not there", 20.0), ("several comparisons", 20.0)],
            threads: 8,
        },
        Spec {
            id: "E02",
            prop: guard_roundtrip,
            quick: 60_000,
            thorough: 2_000_000,
            rule: "as E01, with the guard written out and read back first",
            assumptions: ASSUME,
            fixed: &[],
            floors: &[("holds here and not there", 20.0), ("several comparisons", 20.0)],
            threads: 8,
        },
        Spec {
            id: "E03",
            prop: update_meaning,
            quick: 60_000,
            thorough: 2_000_000,
            rule: "a random list of 1-4 assignments of constant expressions to 1-3 clocks, applied to 6 random valuations; non-trivial: more than one assignment",
            assumptions: ASSUME,
            fixed: &[],
            floors: &[("assigned twice", 10.0)],
            threads: 8,
        },
        Spec {
            id: "E04",
            prop: zone_text,
            quick: 60_000,
            thorough: 2_000_000,
            rule: "a random union of 1-3 zones over 1-3 clocks (bounds on clocks and on differences), written as a guard and read back, compared at 30 random valuations; non-trivial: some inside and some outside",
            assumptions: ASSUME,
            fixed: &[],
            floors: &[("several zones", 10.0)],
            threads: 8,
        },
    ]
}
