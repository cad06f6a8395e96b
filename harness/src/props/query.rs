//! Queries and location identities as text.
use pbt::{check, fail, guarded, Case, Res, Spec};
use reveaal::DataReader::parse_edge::{parse_guard, parse_updates};
use reveaal::DataReader::parse_queries::{parse_to_expression_tree, parse_to_state_expr, parse_to_system_expr};
use reveaal::ModelObjects::Expressions::{ComponentVariable, OperandExpression, QueryExpression, SaveExpression, StateExpression, SystemExpression};
use reveaal::System::specifics::{SpecialLocation};
use reveaal::TransitionSystems::LocationID;

use super::verdicts::ASSUME;

#[derive(Clone, Debug, PartialEq)]
pub enum Sys {
    Comp(String, Option<String>),
    /// `q`uotient, `p`arallel, `c`onjunction
    Op(char, Box<Sys>, Box<Sys>),
}
#[derive(Clone, Debug, PartialEq)]
pub struct Var(String, Option<String>, String);
#[derive(Clone, Debug, PartialEq)]
pub enum Opd {
    Num(i32),
    Clock(Var),
    Bin(char, Box<Opd>, Box<Opd>),
}
#[derive(Clone, Debug, PartialEq)]
pub enum St {
    Cmp(&'static str, Opd, Opd),
    And(Vec<St>),
    Or(Vec<St>),
    Not(Box<St>),
    Loc(Var),
    Bool(bool),
}
#[derive(Clone, Debug, PartialEq)]
pub enum Q {
    Refinement(Sys, Sys),
    Reach(Sys, Option<St>, St),
    One(&'static str, Sys),
    Save(&'static str, Sys, Option<String>),
}

// ---------------------------------------------------------------- generators

const NAMES: &[&str] = &["A", "B", "Machine", "a1", "x_y_2", "notA", "and1", "order", "init", "true1", "falsehood", "save", "not", "T", "or"];
const IDS: &[&str] = &["1", "id", "some id", "a.b", "A&&B", "ø", "0x", "init"];

fn name(c: &mut Case) -> String {
    c.pick(NAMES).to_string()
}
fn id(c: &mut Case) -> Option<String> {
    if c.chance(1, 4) {
        Some(c.pick(IDS).to_string())
    } else {
        None
    }
}
fn gen_sys(c: &mut Case, depth: u32) -> Sys {
    if depth == 0 || c.chance(1, 3) {
        return Sys::Comp(name(c), id(c));
    }
    let op = *c.pick(&['p', 'c', 'q']);
    let l = Box::new(gen_sys(c, depth - 1));
    Sys::Op(op, l, Box::new(gen_sys(c, depth - 1)))
}
fn gen_var(c: &mut Case) -> Var {
    Var(name(c), id(c), c.pick(&["x", "L0", "y1", "L_5", "clock", "not", "and"]).to_string())
}
fn gen_opd(c: &mut Case) -> Opd {
    let mut e = None;
    for _ in 0..=c.below(3) {
        let t = if c.chance(1, 2) { Opd::Num(c.range(0, 30) as i32) } else { Opd::Clock(gen_var(c)) };
        e = Some(match e {
            None => t,
            Some(l) => Opd::Bin(*c.pick(&['+', '-']), Box::new(l), Box::new(t)),
        });
    }
    e.unwrap()
}
fn gen_state(c: &mut Case, depth: u32) -> St {
    if depth == 0 || c.chance(1, 3) {
        return match c.below(8) {
            0 => St::Bool(c.chance(1, 2)),
            1..=4 => St::Loc(gen_var(c)),
            _ => {
                let l = gen_opd(c);
                St::Cmp(c.pick(&["<=", "<", ">=", ">", "=="]), l, gen_opd(c))
            }
        };
    }
    match c.below(5) {
        0 => St::Not(Box::new(gen_state(c, depth - 1))),
        k => {
            let n = 2 + c.idx(2);
            let parts = (0..n).map(|_| gen_state(c, depth - 1)).collect();
            if k < 3 {
                St::And(parts)
            } else {
                St::Or(parts)
            }
        }
    }
}
const SINGLE: &[&str] = &["consistency", "implementation", "determinism", "specification"];
const SAVING: &[&str] = &["get-component", "prune", "bisim-minim"];
fn gen_query(c: &mut Case) -> Q {
    match c.below(5) {
        0 => {
            let l = gen_sys(c, 3);
            Q::Refinement(l, gen_sys(c, 3))
        }
        1 | 2 => {
            let s = gen_sys(c, 2);
            let from = if c.chance(1, 3) { None } else { Some(gen_state(c, 2)) };
            Q::Reach(s, from, gen_state(c, 3))
        }
        3 => Q::One(c.pick(SINGLE), gen_sys(c, 3)),
        _ => {
            let k = *c.pick(SAVING);
            let s = gen_sys(c, 3);
            Q::Save(k, s, if c.chance(1, 2) { Some(name(c)) } else { None })
        }
    }
}

// ---------------------------------------------------------------- writing

fn sp(c: &mut Case) -> &'static str {
    *c.pick(&[" ", "", " ", "  ", "\n", "\t", "\r\n"])
}
/// At least one space.
fn gap(c: &mut Case) -> &'static str {
    *c.pick(&[" ", "  ", "\n", " \t"])
}
fn comp_text(c: &mut Case, n: &str, id: &Option<String>) -> String {
    match id {
        Some(i) => format!("{}{}[{}{}]", n, sp(c), sp(c), i),
        None => n.to_string(),
    }
}
fn sys_text(c: &mut Case, s: &Sys, level: u32) -> String {
    let (t, own) = match s {
        Sys::Comp(n, i) => (comp_text(c, n, i), 4),
        Sys::Op(op, l, r) => {
            let own = match op {
                'q' => 1,
                'p' => 2,
                _ => 3,
            };
            let l = sys_text(c, l, own);
            let r = sys_text(c, r, own + 1);
            let o = match op {
                'q' => *c.pick(&["//", "\\\\"]),
                'p' => "||",
                _ => "&&",
            };
            (format!("{}{}{}{}{}", l, sp(c), o, sp(c), r), own)
        }
    };
    if own < level || c.chance(1, 12) {
        format!("({}{}{})", sp(c), t, sp(c))
    } else {
        t
    }
}
fn var_text(c: &mut Case, v: &Var) -> String {
    format!("{}.{}", comp_text(c, &v.0, &v.1), v.2)
}
fn opd_text(c: &mut Case, o: &Opd) -> String {
    match o {
        Opd::Num(n) => n.to_string(),
        Opd::Clock(v) => var_text(c, v),
        Opd::Bin(op, l, r) => format!("{}{}{}{}{}", opd_text(c, l), gap(c), op, sp(c), opd_text(c, r)),
    }
}
/// `last`: nothing follows up to the end or the closing parenthesis.
fn st_text(c: &mut Case, s: &St, level: u32, last: bool) -> String {
    let paren = c.chance(1, 12);
    let own = match s {
        St::And(_) => 1,
        St::Or(_) => 2,
        // a negation extends as far as possible
        St::Not(_) if !last => 0,
        _ => 3,
    };
    let paren = paren || own < level;
    let last = last || paren;
    let t = match s {
        St::Bool(b) => b.to_string(),
        St::Loc(v) => var_text(c, v),
        St::Cmp(rel, l, r) => format!("{}{}{}{}{}", opd_text(c, l), sp(c), rel, sp(c), opd_text(c, r)),
        St::Not(e) => {
            let inner = st_text(c, e, 0, true);
            if c.chance(1, 2) {
                format!("!{}{}", sp(c), inner)
            } else {
                format!("not{}{}", gap(c), inner)
            }
        }
        St::And(v) | St::Or(v) => {
            let own = if matches!(s, St::And(_)) { 1 } else { 2 };
            let mut t = String::new();
            for (i, e) in v.iter().enumerate() {
                if i > 0 {
                    let (a, b) = if own == 1 { ("&&", "and") } else { ("||", "or") };
                    t += &if c.chance(1, 2) { format!("{}{}{}", sp(c), a, sp(c)) } else { format!("{}{}{}", gap(c), b, gap(c)) };
                }
                t += &st_text(c, e, own + 1, last && i + 1 == v.len());
            }
            t
        }
    };
    if paren {
        format!("({}{}{})", sp(c), t, sp(c))
    } else {
        t
    }
}
fn query_text(c: &mut Case, q: &Q) -> String {
    let t = match q {
        Q::Refinement(l, r) => format!("refinement:{}{}{}<={}{}", sp(c), sys_text(c, l, 0), sp(c), sp(c), sys_text(c, r, 0)),
        Q::Reach(s, from, to) => {
            let from = match from {
                None => "init".to_string(),
                Some(f) => st_text(c, f, 0, true),
            };
            format!("reachability:{}{}{}@{}{}{}->{}{}", sp(c), sys_text(c, s, 0), sp(c), sp(c), from, gap(c), sp(c), st_text(c, to, 0, true))
        }
        Q::One(k, s) => format!("{}:{}{}", k, sp(c), sys_text(c, s, 0)),
        Q::Save(k, s, None) => format!("{}:{}{}", k, sp(c), sys_text(c, s, 0)),
        Q::Save(k, s, Some(n)) => format!("{}:{}{}{}save-as{}{}", k, sp(c), sys_text(c, s, 0), gap(c), gap(c), n),
    };
    format!("{}{}{}", sp(c), t, sp(c))
}

// ---------------------------------------------------------------- what the tool read

fn from_sys(s: &SystemExpression) -> Sys {
    let op = |k, l: &SystemExpression, r: &SystemExpression| Sys::Op(k, Box::new(from_sys(l)), Box::new(from_sys(r)));
    match s {
        SystemExpression::Component(n, i) => Sys::Comp(n.clone(), i.clone()),
        SystemExpression::Quotient(l, r) => op('q', l, r),
        SystemExpression::Composition(l, r) => op('p', l, r),
        SystemExpression::Conjunction(l, r) => op('c', l, r),
    }
}
fn from_var(v: &ComponentVariable) -> Var {
    Var(v.component.clone(), v.special_id.clone(), v.variable.clone())
}
fn from_opd(o: &OperandExpression) -> Opd {
    match o {
        OperandExpression::Number(n) => Opd::Num(*n),
        OperandExpression::Clock(v) => Opd::Clock(from_var(v)),
        OperandExpression::Difference(l, r) => Opd::Bin('-', Box::new(from_opd(l)), Box::new(from_opd(r))),
        OperandExpression::Sum(l, r) => Opd::Bin('+', Box::new(from_opd(l)), Box::new(from_opd(r))),
    }
}
fn from_st(s: &StateExpression) -> St {
    match s {
        StateExpression::LEQ(l, r) => St::Cmp("<=", from_opd(l), from_opd(r)),
        StateExpression::LT(l, r) => St::Cmp("<", from_opd(l), from_opd(r)),
        StateExpression::GEQ(l, r) => St::Cmp(">=", from_opd(l), from_opd(r)),
        StateExpression::GT(l, r) => St::Cmp(">", from_opd(l), from_opd(r)),
        StateExpression::EQ(l, r) => St::Cmp("==", from_opd(l), from_opd(r)),
        StateExpression::AND(v) => St::And(v.iter().map(from_st).collect()),
        StateExpression::OR(v) => St::Or(v.iter().map(from_st).collect()),
        StateExpression::Location(v) => St::Loc(from_var(v)),
        StateExpression::NOT(e) => St::Not(Box::new(from_st(e))),
        StateExpression::Bool(b) => St::Bool(*b),
    }
}
fn from_query(q: &QueryExpression) -> Q {
    let save = |k, s: &SaveExpression| Q::Save(k, from_sys(&s.system), s.name.clone());
    match q {
        QueryExpression::Refinement(l, r) => Q::Refinement(from_sys(l), from_sys(r)),
        QueryExpression::Consistency(s) => Q::One("consistency", from_sys(s)),
        QueryExpression::Implementation(s) => Q::One("implementation", from_sys(s)),
        QueryExpression::Determinism(s) => Q::One("determinism", from_sys(s)),
        QueryExpression::Specification(s) => Q::One("specification", from_sys(s)),
        QueryExpression::Reachability { system, from, to } => Q::Reach(from_sys(system), from.as_ref().map(from_st), from_st(to)),
        QueryExpression::GetComponent(s) => save("get-component", s),
        QueryExpression::Prune(s) => save("prune", s),
        QueryExpression::BisimMinim(s) => save("bisim-minim", s),
    }
}

/// Chains of the same kind may come nested or flat; `and` and `or` are associative.
fn flat(s: &St) -> St {
    fn parts(and: bool, v: &[St], out: &mut Vec<St>) {
        for e in v.iter().map(flat) {
            match (and, e) {
                (true, St::And(w)) | (false, St::Or(w)) => out.extend(w),
                (_, e) => out.push(e),
            }
        }
    }
    let mut out = vec![];
    match s {
        St::And(v) => {
            parts(true, v, &mut out);
            St::And(out)
        }
        St::Or(v) => {
            parts(false, v, &mut out);
            St::Or(out)
        }
        St::Not(e) => St::Not(Box::new(flat(e))),
        s => s.clone(),
    }
}
fn norm(q: &Q) -> Q {
    match q {
        Q::Reach(s, f, t) => Q::Reach(s.clone(), f.as_ref().map(flat), flat(t)),
        q => q.clone(),
    }
}

fn read(text: &str) -> Result<Vec<Q>, String> {
    match guarded(|| parse_to_expression_tree(text)) {
        Ok(r) => r.map(|v| v.iter().map(|q| norm(&from_query(q))).collect()),
        Err(m) => Err(format!("panics: {}", m)),
    }
}

fn operators(s: &Sys) -> usize {
    match s {
        Sys::Comp(..) => 0,
        Sys::Op(_, l, r) => 1 + operators(l) + operators(r),
    }
}
fn mixed(s: &Sys) -> bool {
    match s {
        Sys::Op(o, l, r) => [l, r].iter().any(|x| matches!(&***x, Sys::Op(p, ..) if p != o)) || mixed(l) || mixed(r),
        _ => false,
    }
}
fn note(c: &mut Case, q: &Q) {
    match q {
        Q::Refinement(l, r) => {
            c.nontrivial(operators(l) + operators(r) > 1);
            if mixed(l) || mixed(r) {
                c.class("mixed operators");
            }
        }
        Q::Reach(_, f, t) => {
            c.nontrivial(true);
            c.class("reachability");
            if matches!(t, St::Not(_)) || matches!(f, Some(St::Not(_))) {
                c.class("negation");
            }
        }
        Q::One(_, s) | Q::Save(_, s, _) => {
            c.nontrivial(operators(s) > 1);
            if mixed(s) {
                c.class("mixed operators");
            }
        }
    }
}

fn reading(c: &mut Case) -> Res {
    let n = if c.chance(1, 4) { 2 + c.idx(2) } else { 1 };
    let qs: Vec<Q> = (0..n).map(|_| gen_query(c)).collect();
    let text = qs.iter().map(|q| query_text(c, q)).collect::<Vec<_>>().join(";");
    c.describe(format!("{:?}", text));
    for q in &qs {
        note(c, q);
    }
    let want: Vec<Q> = qs.iter().map(norm).collect();
    match read(&text) {
        Ok(got) => check!(got == want, "read as {:?} instead of {:?}", got, want),
        Err(m) => fail!("not read: {}", m),
    }
    // the parts on their own
    let s = gen_sys(c, 3);
    let text = format!("{}{}{}", sp(c), sys_text(c, &s, 0), sp(c));
    match guarded(|| parse_to_system_expr(&text)) {
        Ok(Ok(e)) => check!(from_sys(&e) == s, "system {:?} read as {:?}", text, from_sys(&e)),
        e => fail!("system {:?} not read: {:?}", text, e),
    }
    let s = flat(&gen_state(c, 3));
    let text = format!("{}{}{}", sp(c), st_text(c, &s, 0, true), sp(c));
    match guarded(|| parse_to_state_expr(&text)) {
        Ok(Ok(e)) => check!(flat(&from_st(&e)) == s, "state {:?} read as {:?}", text, from_st(&e)),
        e => fail!("state {:?} not read: {:?}", text, e),
    }
    Ok(())
}

fn showing(c: &mut Case) -> Res {
    let q = gen_query(c);
    let text = query_text(c, &q);
    c.describe(format!("{:?}", text));
    note(c, &q);
    let e = parse_to_expression_tree(&text)?.remove(0);
    let shown = e.to_string();
    c.append(&format!(" shown {:?}", shown));
    match read(&shown) {
        Ok(got) => check!(got == vec![norm(&q)], "shown as {:?}, which reads {:?}", shown, got),
        Err(m) => fail!("shown as {:?}, which is not read: {}", shown, m),
    }
    Ok(())
}

// ---------------------------------------------------------------- malformed text

fn refused<T: std::fmt::Debug>(what: &str, text: &str, f: impl FnOnce(&str) -> Result<T, String>) -> Res {
    match guarded(|| f(text)) {
        Ok(Err(_)) => Ok(()),
        Ok(Ok(v)) => fail!("{} {:?} is accepted as {:?}", what, text, v),
        Err(m) => fail!("{} {:?} panics: {}", what, text, m),
    }
}

fn break_text(c: &mut Case, text: &str, operators: &[&str], operands: &[&str]) -> (String, &'static str) {
    let k = c.below(6);
    match k {
        0 => (format!("{}{}{}", text, c.pick(&[" ", ""]), c.pick(&[")", "(", " && ", "||", "#", " B C", " <=", "@", "%%", "!"])), "something after it"),
        1 => (format!("({}", text), "an open parenthesis"),
        2 => (format!("{} {}", c.pick(operators), text), "no left operand"),
        3 => (format!("{} {}", text, c.pick(operators)), "no right operand"),
        4 => (format!("{} {} {}", text, c.pick(operands), c.pick(operands)), "no operator"),
        _ => (format!("{} {} {}", text, c.pick(operators), ["$", "()", ""][c.idx(3)]), "no operand"),
    }
}

fn malformed(c: &mut Case) -> Res {
    c.nontrivial(true);
    match c.below(6) {
        0 => {
            let s = gen_sys(c, 2);
            let good = sys_text(c, &s, 0);
            let (bad, why) = break_text(c, &good, &["&&", "||", "//"], &["A", "B"]);
            c.describe(format!("system {:?}: {}", bad, why));
            c.class("system");
            refused("the system", &bad, parse_to_system_expr)?;
            let k = *c.pick(SINGLE);
            refused("the query", &format!("{}: {}", k, bad), parse_to_expression_tree)
        }
        1 => {
            let s = gen_state(c, 2);
            let good = st_text(c, &s, 0, true);
            let (bad, why) = break_text(c, &good, &["&&", "||", "and", "or"], &["A.L1", "B.x", "true"]);
            c.describe(format!("state {:?}: {}", bad, why));
            c.class("state");
            refused("the state", &bad, parse_to_state_expr)?;
            refused("the query", &format!("reachability: A @ init -> {}", bad), parse_to_expression_tree)
        }
        2 => {
            let q = gen_query(c);
            let good = query_text(c, &q);
            let bad = match c.below(6) {
                0 => good.replacen(':', "", 1),
                1 => format!("x{}", good.trim_start()),
                2 => format!("{};", good),
                3 => format!(";{}", good),
                4 => good.replacen(':', ";", 1),
                _ => format!("{} {}", good, good),
            };
            c.describe(format!("query {:?}", bad));
            c.class("query");
            refused("the query", &bad, parse_to_expression_tree)
        }
        3 => {
            let clock = c.pick(&["x", "y", "clk"]).to_string();
            let k = c.range(0, 20);
            let good = format!("{}{}{}{}{}", clock, sp(c), c.pick(&["<=", "<", "==", ">", ">="]), sp(c), k);
            let good = if c.chance(1, 2) { format!("{} && {}", good, good) } else { good };
            let bad = match c.below(8) {
                0 => format!("{} {}", good, c.pick(&["<= 3", "== y", ")", "(", "#", "; ;", "x", "3 <= x"])),
                1 => format!("({}", good),
                2 => format!("&& {}", good),
                3 => format!("{} ||", good),
                4 => format!("{} +", good),
                5 => good.replacen(&k.to_string(), "", 1).replacen(&clock, "", 1),
                6 => format!("{} && {}", good, c.pick(&["x", "3", "x = 3", "x <= ", "x != 3", "x =< 3", "!x", "x <= -"])),
                _ => format!("{} && x <= {}", good, c.range(3_000_000_000, 9_000_000_000)),
            };
            c.describe(format!("guard {:?}", bad));
            c.class("guard");
            refused("the guard", &bad, parse_guard)
        }
        4 => {
            let good = format!("x{}={}{}", sp(c), sp(c), c.range(0, 20));
            let bad = match c.below(7) {
                0 => format!("{} {}", good, c.pick(&["y", "= 3", ";", "&& y = 2", "y = 2", ")", ",,", "== 3"])),
                1 => format!(", {}", good),
                2 => format!("{}, y", good),
                3 => format!("{}, = 3", good),
                4 => format!("{}, 3 = y", good),
                5 => format!("{} + ", good),
                _ => format!("{}, y = {}", good, c.range(3_000_000_000, 9_000_000_000)),
            };
            c.describe(format!("updates {:?}", bad));
            c.class("updates");
            refused("the updates", &bad, parse_updates)
        }
        _ => {
            // anything at all: an answer is all that is asked for
            let words = [
                "refinement:", "consistency:", "reachability:", "get-component:", "prune:", "determinism:", "specification:", "save-as", "A", "B", "x", "(", ")", "[", "]", ".", "->", "@",
                "init", "&&", "||", "//", "<=", "==", "<", "not", "!", "and", "or", "true", "3", "99999999999", "+", "-", "=", ",", ";", " ", "ø", "\\", "\u{0}", "_",
            ];
            let n = c.idx(12);
            let mut t = String::new();
            for _ in 0..n {
                t += *c.pick(&words);
                if c.chance(1, 2) {
                    t += " ";
                }
            }
            c.describe(format!("text {:?}", t));
            c.class("any text");
            let all = || {
                let _ = parse_to_expression_tree(&t);
                let _ = parse_to_system_expr(&t);
                let _ = parse_to_state_expr(&t);
                let _ = parse_guard(&t);
                let _ = parse_updates(&t);
            };
            match guarded(all) {
                Ok(()) => Ok(()),
                Err(m) => fail!("panics: {}", m),
            }
        }
    }
}

// ---------------------------------------------------------------- location identities

#[derive(Clone, Debug, PartialEq)]
enum L {
    S(String),
    Any,
    Op(char, Box<L>, Box<L>),
    Univ,
    Inc,
}
fn gen_shape(c: &mut Case, depth: u32) -> L {
    if depth == 0 || c.chance(1, 4) {
        return L::S(String::new());
    }
    let op = *c.pick(&['p', 'c', 'q']);
    let l = Box::new(gen_shape(c, depth - 1));
    L::Op(op, l, Box::new(gen_shape(c, depth - 1)))
}
fn fill(c: &mut Case, s: &L, names: &[&str], any: bool, special: bool) -> L {
    match s {
        L::Op('q', ..) if special && c.chance(1, 6) => {
            if c.chance(1, 2) {
                L::Univ
            } else {
                L::Inc
            }
        }
        L::Op(o, l, r) => {
            let l = Box::new(fill(c, l, names, any, special));
            L::Op(*o, l, Box::new(fill(c, r, names, any, special)))
        }
        _ if any && c.chance(1, 6) => L::Any,
        _ => L::S(c.pick(names).to_string()),
    }
}
fn build(l: &L) -> LocationID {
    match l {
        L::S(n) => LocationID::Simple(n.clone()),
        L::Any => LocationID::AnyLocation,
        L::Univ => LocationID::Special(SpecialLocation::Universal),
        L::Inc => LocationID::Special(SpecialLocation::Error),
        L::Op(o, l, r) => {
            let (l, r) = (Box::new(build(l)), Box::new(build(r)));
            match o {
                'p' => LocationID::Composition(l, r),
                'c' => LocationID::Conjunction(l, r),
                _ => LocationID::Quotient(l, r),
            }
        }
    }
}
/// The operators without the grouping of equal ones.
fn flat_ops(l: &LocationID) -> (char, Vec<String>) {
    let (k, a, b) = match l {
        LocationID::Composition(a, b) => ('p', a, b),
        LocationID::Conjunction(a, b) => ('c', a, b),
        LocationID::Quotient(a, b) => return ('q', vec![flat_text(a), flat_text(b)]),
        other => return ('s', vec![format!("{:?}", other)]),
    };
    let mut out = vec![];
    for x in [a, b] {
        let (kx, v) = flat_ops(x);
        if kx == k {
            out.extend(v);
        } else {
            out.push(flat_text(x));
        }
    }
    (k, out)
}
fn flat_text(l: &LocationID) -> String {
    let (k, v) = flat_ops(l);
    format!("{}[{}]", k, v.join(" "))
}
fn locations(c: &mut Case) -> Res {
    let shape = gen_shape(c, 4);
    let names: &[&str] = c.pick(&[&["L0", "L1", "L2"][..], &["a", "ab", "b"], &["A", "AB", "A_B", "L"]]);
    let any = c.chance(1, 3);
    let special = c.chance(1, 4);
    let one = fill(c, &shape, names, any, special);
    let mut two = one.clone();
    if !c.chance(1, 4) {
        two = fill(c, &shape, names, any, special);
    }
    let (a, b) = (build(&one), build(&two));
    c.describe(format!("{} and {}", a, b));
    c.nontrivial(one != two && matches!(shape, L::Op(..)));
    c.class(if one == two { "equal" } else { "different" });
    check!((a == b) == (one == two), "compared as {}", a == b);
    check!((a.to_string() == b.to_string()) == (one == two), "the texts are {} and {}", a, b);
    fn has_any(l: &L) -> bool {
        match l {
            L::Any => true,
            L::Op(_, l, r) => has_any(l) || has_any(r),
            _ => false,
        }
    }
    check!(a.is_partial_location() == has_any(&one), "{} is partial: {}", a, a.is_partial_location());
    fn plain(l: &L) -> bool {
        match l {
            L::S(_) => true,
            L::Op(_, l, r) => plain(l) && plain(r),
            _ => false,
        }
    }
    if plain(&one) {
        c.class("read back");
        let text = a.to_string();
        let again = match guarded(|| LocationID::from_string(&text)) {
            Ok(l) => l,
            Err(m) => fail!("{} is not read: {}", text, m),
        };
        check!(flat_text(&again) == flat_text(&a), "{} reads as {:?}", text, again);
    }
    Ok(())
}

pub fn specs() -> Vec<Spec> {
    vec![
        Spec {
            id: "Q01",
            prop: reading,
            quick: 60_000,
            thorough: 2_000_000,
            rule: "one to three random queries of all nine kinds written with random white space and as few or a few more parentheses than needed, a random system and a random state; non-trivial: a reachability query or at least two operators",
            assumptions: ASSUME,
            fixed: &[],
            floors: &[("mixed operators", 10.0), ("reachability", 20.0), ("negation", 3.0)],
            threads: 8,
        },
        Spec {
            id: "Q02",
            prop: malformed,
            quick: 60_000,
            thorough: 2_000_000,
            rule: "a well-formed system, state, query, guard or update list broken in one definite way, or random words; every case counts",
            assumptions: ASSUME,
            fixed: &[],
            floors: &[("system", 8.0), ("state", 8.0), ("query", 8.0), ("guard", 8.0), ("updates", 8.0), ("any text", 8.0)],
            threads: 8,
        },
        Spec {
            id: "Q03",
            prop: showing,
            quick: 60_000,
            thorough: 2_000_000,
            rule: "a random query as in Q01, read, displayed and read again; non-trivial as in Q01",
            assumptions: ASSUME,
            fixed: &[],
            floors: &[("mixed operators", 8.0), ("reachability", 20.0)],
            threads: 8,
        },
        Spec {
            id: "L01",
            prop: locations,
            quick: 60_000,
            thorough: 2_000_000,
            rule: "two location identities of one random system of up to 16 components, also partial ones and ones in a quotient's special locations; non-trivial: they differ and the system has an operator",
            assumptions: ASSUME,
            fixed: &[],
            floors: &[("equal", 5.0), ("different", 30.0), ("read back", 10.0)],
            threads: 8,
        },
    ]
}
