//! Properties of transition identities. The module is compiled by path, on its own, so that
//! these checks do not depend on the rest of the project compiling.
#![allow(non_snake_case)]
use pbt::{check, fail, guarded, Case, Res, Spec};

#[path = "/repo/src/TransitionSystems/transition_id.rs"]
#[allow(dead_code)]
mod transition_id;
use transition_id::TransitionID as Id;

/// The shape of a system: what every transition identity of that system looks like.
#[derive(Clone, Debug)]
enum Shape {
    Comp,
    Conj(Box<Shape>, Box<Shape>),
    Par(Box<Shape>, Box<Shape>),
    Quot(Box<Shape>, Box<Shape>),
}

fn gen_shape(c: &mut Case, depth: u32) -> Shape {
    if depth == 0 {
        return Shape::Comp;
    }
    match c.below(5) {
        0 | 1 => Shape::Comp,
        k => {
            let l = Box::new(gen_shape(c, depth - 1));
            let r = Box::new(gen_shape(c, depth - 1));
            match k {
                2 => Shape::Par(l, r),
                3 => Shape::Conj(l, r),
                _ => Shape::Quot(l, r),
            }
        }
    }
}

/// Up to `n` components in a row, deep to one side or to both.
fn gen_long(c: &mut Case, n: u64) -> Shape {
    let mut s = gen_shape(c, 1);
    for _ in 0..c.below(n) {
        let d = c.below(2) as u32;
        let o = Box::new(gen_shape(c, d));
        let same = c.chance(1, 2);
        let (l, r) = if c.chance(1, 2) { (Box::new(s), o) } else { (o, Box::new(s)) };
        s = match if same { 0 } else { c.below(4) } {
            0 => Shape::Par(l, r),
            1 | 2 => Shape::Conj(l, r),
            _ => Shape::Quot(l, r),
        };
    }
    s
}

fn gen_any(c: &mut Case, depth: u64) -> Shape {
    if c.chance(1, 8) {
        return gen_long(c, 24);
    }
    let depth = c.below(depth) as u32;
    gen_shape(c, depth)
}

fn width(s: &Shape) -> usize {
    match s {
        Shape::Comp => 1,
        Shape::Conj(l, r) | Shape::Par(l, r) | Shape::Quot(l, r) => width(l) + width(r),
    }
}

fn atomic(s: &Shape) -> bool {
    matches!(s, Shape::Comp)
}

/// How much of the shapes a quotient identity can take is generated.
#[derive(Clone, Copy)]
struct Mode {
    /// Sides of a quotient without a transition (only of a side that is a single component, as
    /// the identity does not say how many components an absent side stands for).
    empty: bool,
    names: u64,
    /// Names the tool itself does not give, and the ones it gives to inputs it adds.
    other_names: bool,
    /// Up to so many transitions on a side of a quotient.
    alternatives: u64,
}

fn gen_leaf(c: &mut Case, mode: Mode) -> Id {
    if c.chance(1, 5) {
        return Id::None;
    }
    let k = c.below(mode.names);
    if mode.other_names && c.chance(1, 3) {
        let all = ["", "NoID", "None", "E", "e1", " E1", "E1 ", "E01", "input_a_L0", "E1&&E2", "(E1)", "\\\\", "æ"];
        return Id::Simple(all[k as usize % all.len()].into());
    }
    Id::Simple(format!("E{}", k))
}

fn gen_side(c: &mut Case, s: &Shape, mode: Mode) -> Vec<Id> {
    if mode.empty && atomic(s) && c.chance(1, 4) {
        return vec![];
    }
    // few where there are many in each
    let n = match width(s) {
        0..=4 => 1 + c.below(mode.alternatives),
        5..=8 => 1 + c.below(mode.alternatives.min(2)),
        _ => 1 + c.chance(1, 4) as u64,
    };
    (0..n).map(|_| gen_id(c, s, mode)).collect()
}

fn gen_id(c: &mut Case, s: &Shape, mode: Mode) -> Id {
    match s {
        Shape::Comp => gen_leaf(c, mode),
        Shape::Conj(l, r) => Id::Conjunction(Box::new(gen_id(c, l, mode)), Box::new(gen_id(c, r, mode))),
        Shape::Par(l, r) => Id::Composition(Box::new(gen_id(c, l, mode)), Box::new(gen_id(c, r, mode))),
        Shape::Quot(l, r) => {
            let l = gen_side(c, l, mode);
            let r = gen_side(c, r, mode);
            Id::Quotient(l, r)
        }
    }
}

/// Reference: one slot per component, in the order of the components in the system, holding the
/// component's leaves in the order they appear.
fn slots(id: &Id) -> Vec<Vec<Id>> {
    fn side(ids: &[Id]) -> Vec<Vec<Id>> {
        let mut out: Vec<Vec<Id>> = vec![vec![]];
        for (n, id) in ids.iter().enumerate() {
            let s = slots(id);
            if n == 0 {
                out = s;
            } else {
                for (o, s) in out.iter_mut().zip(s) {
                    o.extend(s);
                }
            }
        }
        out
    }
    match id {
        Id::Conjunction(l, r) | Id::Composition(l, r) => {
            let mut out = slots(l);
            out.extend(slots(r));
            out
        }
        Id::Quotient(l, r) => {
            let mut out = side(l);
            out.extend(side(r));
            out
        }
        Id::Simple(_) | Id::None => vec![vec![id.clone()]],
    }
}

fn has_quotient(id: &Id) -> bool {
    match id {
        Id::Conjunction(l, r) | Id::Composition(l, r) => has_quotient(l) || has_quotient(r),
        Id::Quotient(..) => true,
        _ => false,
    }
}
fn multi(id: &Id) -> bool {
    match id {
        Id::Conjunction(l, r) | Id::Composition(l, r) => multi(l) || multi(r),
        Id::Quotient(l, r) => l.len() > 1 || r.len() > 1,
        _ => false,
    }
}
fn empty_side(id: &Id) -> bool {
    match id {
        Id::Conjunction(l, r) | Id::Composition(l, r) => empty_side(l) || empty_side(r),
        Id::Quotient(l, r) => l.is_empty() || r.is_empty() || l.iter().chain(r).any(empty_side),
        _ => false,
    }
}
fn has_none(id: &Id) -> bool {
    slots(id).iter().flatten().any(|l| *l == Id::None)
}

fn mode(c: &mut Case) -> Mode {
    Mode {
        empty: c.chance(1, 2),
        names: *c.pick(&[1, 3, 40]),
        other_names: c.chance(1, 4),
        alternatives: *c.pick(&[3, 3, 3, 3, 3, 3, 9, 1]),
    }
}

/// T01: the leaves of an identity.
fn leaves(c: &mut Case) -> Res {
    let shape = gen_any(c, 5);
    let m = mode(c);
    let id = gen_id(c, &shape, m);
    let expect = slots(&id);
    c.describe(format!("{:?}", id));
    c.nontrivial(width(&shape) >= 2);
    if has_quotient(&id) {
        c.class("quotient");
    }
    if multi(&id) {
        c.class("several transitions on a side");
    }
    if empty_side(&id) {
        c.class("side without transition");
    }
    if has_none(&id) {
        c.class("leaf without identity");
    }
    c.class(format!("components {}", width(&shape).min(9)));
    let got = guarded(|| id.get_leaves())?;
    check!(got == expect, "leaves are {:?}, expected {:?}", got, expect);
    check!(got.len() == width(&shape), "{} components, {} lists of leaves", width(&shape), got.len());
    Ok(())
}

/// T02: splitting a path into one list per component.
fn split(c: &mut Case) -> Res {
    let shape = gen_any(c, 4);
    let m = mode(c);
    let len = if c.chance(1, 16) { c.below(60) } else { c.below(6) };
    let mut path: Vec<Id> = (0..len).map(|_| gen_id(c, &shape, m)).collect();
    // Sometimes steps that do not belong to that system.
    if !path.is_empty() && c.chance(1, 3) {
        for _ in 0..1 + c.below(2) {
            let at = c.idx(path.len());
            let other = if c.chance(1, 8) { gen_long(c, 24) } else { gen_shape(c, 3) };
            path[at] = gen_id(c, &other, m);
        }
    }
    c.describe(format!("{:?}", path));
    let widths: Vec<usize> = path.iter().map(|p| slots(p).len()).collect();
    let ok = widths.windows(2).all(|w| w[0] == w[1]);
    c.nontrivial(path.len() >= 2 && widths.iter().any(|w| *w >= 2));
    c.class(if ok { "same components" } else { "different components" });
    if path.is_empty() {
        c.class("empty path");
    }
    if path.iter().any(has_none) {
        c.class("leaf without identity");
    }
    if path.iter().any(has_quotient) {
        c.class("quotient");
    }
    let got = guarded(|| Id::split_into_component_lists(&path))?;
    match got {
        Err(m) => check!(!ok, "a path through one system was rejected: {}", m),
        Ok(lists) => {
            check!(ok, "a path whose steps have different numbers of components {:?} was split into {:?}", widths, lists);
            let n = widths.first().copied().unwrap_or(0);
            check!(lists.len() == n, "{} lists for {} components", lists.len(), n);
            for (comp, list) in lists.iter().enumerate() {
                check!(list.len() == path.len(), "component {} has {} steps of {}", comp, list.len(), path.len());
                for (step, ids) in list.iter().enumerate() {
                    let expect: Vec<Id> =
                        slots(&path[step])[comp].iter().filter(|i| **i != Id::None).cloned().collect();
                    check!(
                        *ids == expect,
                        "component {} takes {:?} in step {}, expected {:?}",
                        comp,
                        ids,
                        step,
                        expect
                    );
                }
            }
        }
    }
    Ok(())
}

/// What a displayed identity says: the tree, with chains of one operator flattened.
#[derive(Debug, PartialEq, Clone)]
enum Shown {
    Leaf(String),
    Conj(Vec<Shown>),
    Par(Vec<Shown>),
    Quot(Vec<Shown>, Vec<Shown>),
}

fn shown(id: &Id) -> Shown {
    fn chain(id: &Id, conj: bool, out: &mut Vec<Shown>) {
        match (id, conj) {
            (Id::Conjunction(l, r), true) | (Id::Composition(l, r), false) => {
                chain(l, conj, out);
                chain(r, conj, out);
            }
            _ => out.push(shown(id)),
        }
    }
    match id {
        Id::Simple(n) => Shown::Leaf(n.clone()),
        Id::None => Shown::Leaf("NoID".into()),
        Id::Conjunction(..) => {
            let mut v = vec![];
            chain(id, true, &mut v);
            Shown::Conj(v)
        }
        Id::Composition(..) => {
            let mut v = vec![];
            chain(id, false, &mut v);
            Shown::Par(v)
        }
        Id::Quotient(l, r) => Shown::Quot(l.iter().map(shown).collect(), r.iter().map(shown).collect()),
    }
}

/// Reads a displayed identity back: operands are names or parenthesised expressions, and
/// operands that are not separated by an operator are the transitions of one quotient side.
fn read(s: &[u8], pos: &mut usize) -> Result<Shown, String> {
    let mut groups: Vec<Vec<Shown>> = vec![vec![]];
    let mut ops: Vec<&[u8]> = vec![];
    loop {
        match s.get(*pos) {
            None | Some(b')') => break,
            Some(b'(') => {
                *pos += 1;
                let inner = read(s, pos)?;
                if s.get(*pos) != Some(&b')') {
                    return Err("unbalanced parenthesis".into());
                }
                *pos += 1;
                groups.last_mut().unwrap().push(inner);
            }
            Some(b'&') | Some(b'|') | Some(b'\\') => {
                let op = s.get(*pos..*pos + 2).ok_or("half an operator")?;
                if op[0] != op[1] {
                    return Err("half an operator".into());
                }
                ops.push(op);
                *pos += 2;
                groups.push(vec![]);
            }
            Some(b'E') => {
                let start = *pos;
                *pos += 1;
                while s.get(*pos).is_some_and(|b| b.is_ascii_digit()) {
                    *pos += 1;
                }
                groups.last_mut().unwrap().push(Shown::Leaf(String::from_utf8_lossy(&s[start..*pos]).into_owned()));
            }
            Some(_) if s[*pos..].starts_with(b"NoID") => {
                *pos += 4;
                groups.last_mut().unwrap().push(Shown::Leaf("NoID".into()));
            }
            Some(b) => return Err(format!("unexpected {:?}", *b as char)),
        }
    }
    let Some(op) = ops.first() else {
        let mut g = groups.pop().unwrap();
        return if g.len() == 1 { Ok(g.pop().unwrap()) } else { Err("operands without an operator".into()) };
    };
    if ops.iter().any(|o| o != op) {
        return Err("mixed operators without parentheses".into());
    }
    if *op == b"\\\\" {
        if groups.len() != 2 {
            return Err("a quotient has two sides".into());
        }
        let r = groups.pop().unwrap();
        return Ok(Shown::Quot(groups.pop().unwrap(), r));
    }
    let mut items = vec![];
    for mut g in groups {
        if g.len() != 1 {
            return Err("operands without an operator".into());
        }
        items.push(g.pop().unwrap());
    }
    // A parenthesised operand of the same operator is the same chain.
    let conj = *op == b"&&";
    let mut flat = vec![];
    for i in items {
        match (i, conj) {
            (Shown::Conj(v), true) | (Shown::Par(v), false) => flat.extend(v),
            (i, _) => flat.push(i),
        }
    }
    Ok(if conj { Shown::Conj(flat) } else { Shown::Par(flat) })
}

/// T03: the displayed form.
fn display(c: &mut Case) -> Res {
    let shape = gen_any(c, 5);
    let m = Mode { other_names: false, ..mode(c) };
    let id = gen_id(c, &shape, m);
    c.describe(format!("{:?}", id));
    c.nontrivial(width(&shape) >= 3);
    if has_quotient(&id) {
        c.class("quotient");
    }
    if has_none(&id) {
        c.class("leaf without identity");
    }
    let text = guarded(|| id.to_string())?;
    let mut pos = 0;
    let back = read(text.as_bytes(), &mut pos);
    match back {
        Ok(b) if pos == text.len() => {
            check!(b == shown(&id), "displayed as {:?}, which reads as {:?}", text, b)
        }
        Ok(_) => fail!("displayed as {:?}: unbalanced parenthesis", text),
        Err(e) => fail!("displayed as {:?}: {}", text, e),
    }
    Ok(())
}

fn s(n: &str) -> Id {
    Id::Simple(n.into())
}

fn fixed_leaves(id: Id) -> Result<(), String> {
    let e = slots(&id);
    let g = guarded(|| id.get_leaves())?;
    if g == e {
        Ok(())
    } else {
        Err(format!("{:?} has leaves {:?}, expected {:?}", id, g, e))
    }
}

fn main() {
    pbt::driver::run(vec![
        Spec {
            id: "T01",
            prop: leaves,
            quick: 400_000,
            thorough: 6_000_000,
            rule: "a random system shape (up to 4 levels of conjunction, composition and quotient, or up to 25 components in a row) and a random transition identity of that shape, with 1-9 transitions (or, for a single component, none) per quotient side; non-trivial: at least two components",
            assumptions: &["the transitions listed on one side of a quotient belong to the same (sub)system, as the transition systems build them", "a quotient side without transitions stands for one component"],
            fixed: &[
                ("left-side-empty", || fixed_leaves(Id::Quotient(vec![], vec![s("E1")]))),
                ("right-side-empty", || {
                    fixed_leaves(Id::Composition(Box::new(Id::Quotient(vec![s("E1")], vec![])), Box::new(s("E2"))))
                }),
            ],
            floors: &[("quotient", 10.0), ("several transitions on a side", 5.0), ("leaf without identity", 10.0)],
            threads: 8,
        },
        Spec {
            id: "T02",
            prop: split,
            quick: 250_000,
            thorough: 4_000_000,
            rule: "a path of 0-5, sometimes up to 59, identities of one random system shape, in a third of the cases with one or two steps of another shape; non-trivial: at least two steps and two components",
            assumptions: &["as for T01"],
            fixed: &[],
            floors: &[("same components", 20.0), ("different components", 3.0), ("leaf without identity", 10.0)],
            threads: 8,
        },
        Spec {
            id: "T03",
            prop: display,
            quick: 300_000,
            thorough: 5_000_000,
            rule: "a random identity as for T01, displayed and read back by an independent reader; non-trivial: at least three components",
            assumptions: &["edge names are E followed by digits, as the tool names them"],
            fixed: &[],
            floors: &[("quotient", 10.0), ("leaf without identity", 10.0)],
            threads: 8,
        },
    ]);
}
