//! Reference semantics: timed systems explored region by region.
//!
//! A region fixes, for every clock, its integral part up to the largest constant it is compared
//! with, and the order of the fractional parts. All guards, invariants and updates of the
//! generated models are constant on a region, so a question about all valuations is a question
//! about finitely many regions.
use crate::model::{Atom, Comp, Edge, Loc, LocKind, Rel};
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet, VecDeque};

pub const ABOVE: u8 = 200;

/// Per clock: integral part, rank of the fractional part (0: integral value).
#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
pub struct Reg(pub Vec<(u8, u8)>);

impl Reg {
    pub fn zero(n: usize) -> Reg {
        Reg(vec![(0, 0); n])
    }
    pub fn normal(v: Vec<(u8, u8)>) -> Reg {
        let mut r = Reg(v);
        r.normalise();
        r
    }
    fn normalise(&mut self) {
        let mut ranks: Vec<u8> = self.0.iter().filter(|c| c.0 != ABOVE && c.1 > 0).map(|c| c.1).collect();
        ranks.sort();
        ranks.dedup();
        for c in &mut self.0 {
            if c.0 == ABOVE {
                c.1 = 0;
            } else if c.1 > 0 {
                c.1 = ranks.iter().position(|r| *r == c.1).unwrap() as u8 + 1;
            }
        }
    }
    /// The next region as time passes; itself if there is none.
    pub fn delay(&self, max: &[i64]) -> Reg {
        let mut r = self.clone();
        let integral = r.0.iter().any(|c| c.0 != ABOVE && c.1 == 0);
        if integral {
            for (c, m) in r.0.iter_mut().zip(max) {
                if c.0 == ABOVE {
                    continue;
                }
                if c.1 == 0 {
                    if c.0 as i64 == *m {
                        *c = (ABOVE, 0);
                    } else {
                        c.1 = 1;
                    }
                } else {
                    c.1 += 1;
                }
            }
        } else {
            let top = r.0.iter().map(|c| c.1).max().unwrap_or(0);
            if top == 0 {
                return r;
            }
            for c in r.0.iter_mut() {
                if c.0 != ABOVE && c.1 == top {
                    *c = (c.0 + 1, 0);
                }
            }
        }
        r.normalise();
        r
    }
    pub fn reset(&mut self, x: usize, v: i64, max: &[i64]) {
        self.0[x] = if v > max[x] { (ABOVE, 0) } else { (v as u8, 0) };
        self.normalise();
    }
    pub fn sat(&self, x: usize, rel: Rel, b: i64) -> bool {
        let (i, rank) = self.0[x];
        let above = i == ABOVE;
        let i = i as i64;
        match rel {
            Rel::Le => !above && (i < b || (i == b && rank == 0)),
            Rel::Lt => !above && i < b,
            Rel::Ge => above || i >= b,
            Rel::Gt => above || i > b || (i == b && rank > 0),
            Rel::Eq => !above && i == b && rank == 0,
        }
    }
    pub fn show(&self) -> String {
        self.0
            .iter()
            .map(|(i, r)| if *i == ABOVE { ">max".into() } else if *r == 0 { format!("{}", i) } else { format!("{}+f{}", i, r) })
            .collect::<Vec<_>>()
            .join(",")
    }
}

/// Bounds of single clocks that can hold together.
pub fn satisfiable(atoms: &[Atom], clocks: usize) -> bool {
    (0..clocks).all(|x| {
        // in halves: an open bound excludes the integral value
        let (mut lo, mut hi) = (0, i64::MAX);
        for a in atoms.iter().filter(|a| a.clock == x) {
            match a.rel {
                Rel::Le => hi = hi.min(2 * a.bound),
                Rel::Lt => hi = hi.min(2 * a.bound - 1),
                Rel::Ge => lo = lo.max(2 * a.bound),
                Rel::Gt => lo = lo.max(2 * a.bound + 1),
                Rel::Eq => {
                    lo = lo.max(2 * a.bound);
                    hi = hi.min(2 * a.bound);
                }
            }
        }
        lo <= hi
    })
}

#[derive(Clone, Debug)]
pub enum Tree {
    Leaf(usize),
    Par(Box<Tree>, Box<Tree>),
    And(Box<Tree>, Box<Tree>),
    /// What is to be composed with the second to get the first. The last is a component made by
    /// [`quotient_part`].
    Quot(Box<Tree>, Box<Tree>, usize),
}

/// In place of a component: where a quotient is (a pair of locations, universal, error), and its clock.
pub fn quotient_part() -> Comp {
    let loc = |id: &str, inv| Loc { id: id.into(), inv, kind: LocKind::Normal };
    let edge = |id: &str, tgt, resets| Edge { id: id.into(), src: 0, tgt, input: true, action: id.into(), guard: vec![], resets };
    Comp {
        name: QUOTIENT.into(),
        clocks: vec!["new".into()],
        locs: vec![
            Loc { kind: LocKind::Initial, ..loc("pair", vec![]) },
            loc("universal", vec![]),
            loc("error", vec![Atom { clock: 0, rel: Rel::Le, bound: 0 }]),
        ],
        edges: vec![edge("to universal", 1, vec![]), edge("to error", 2, vec![(0, 0)])],
        stars: false,
    }
}
pub const QUOTIENT: &str = "(quotient)";
pub const TO_UNIVERSAL: usize = 0;
pub const TO_ERROR: usize = 1;
impl Tree {
    pub fn has_conjunction(&self) -> bool {
        match self {
            Tree::Leaf(_) => false,
            Tree::And(_, _) => true,
            Tree::Par(l, r) | Tree::Quot(l, r, _) => l.has_conjunction() || r.has_conjunction(),
        }
    }
    pub fn has_quotient(&self) -> bool {
        match self {
            Tree::Leaf(_) => false,
            Tree::Quot(..) => true,
            Tree::And(l, r) | Tree::Par(l, r) => l.has_quotient() || r.has_quotient(),
        }
    }
    pub fn leaves(&self, out: &mut Vec<usize>) {
        match self {
            Tree::Leaf(i) => out.push(*i),
            Tree::Par(l, r) | Tree::And(l, r) => {
                l.leaves(out);
                r.leaves(out);
            }
            Tree::Quot(l, r, q) => {
                l.leaves(out);
                r.leaves(out);
                out.push(*q);
            }
        }
    }
}

/// Components over one common set of clocks.
pub struct World<'a> {
    pub comps: Vec<&'a Comp>,
    pub offset: Vec<usize>,
    pub max: Vec<i64>,
    pub inputs: Vec<BTreeSet<String>>,
    pub outputs: Vec<BTreeSet<String>>,
}

#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
pub struct St {
    pub locs: Vec<u8>,
    pub reg: Reg,
}

/// One way to do an action: the edge each taking-part component uses (none: it stays).
#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Move {
    pub parts: Vec<(usize, Option<usize>)>,
    /// Components that play no role any more.
    pub gone: Vec<usize>,
}

impl Move {
    fn with(&self, other: &Move) -> Move {
        let mut m = self.clone();
        m.parts.extend(other.parts.iter().cloned());
        m.gone.extend(other.gone.iter().cloned());
        m
    }
}

impl<'a> World<'a> {
    pub fn new(comps: Vec<&'a Comp>) -> World<'a> {
        let mut offset = vec![];
        let mut max = vec![];
        for c in &comps {
            offset.push(max.len());
            max.extend(c.max_consts());
        }
        let inputs = comps.iter().map(|c| c.inputs().into_iter().collect()).collect();
        let outputs = comps.iter().map(|c| c.outputs().into_iter().collect()).collect();
        World { comps, offset, max, inputs, outputs }
    }
    /// Where the clocks of quotients are shown they are told apart as far as the others.
    pub fn raise_quotient_clocks(&mut self) {
        let top = self.max.iter().max().cloned().unwrap_or(0).max(1);
        for (i, m) in self.comps.iter().enumerate() {
            if m.name == QUOTIENT {
                self.max[self.offset[i]] = top;
            }
        }
    }
    pub fn initial(&self) -> St {
        St {
            locs: self.comps.iter().map(|c| c.initial().unwrap_or(0) as u8).collect(),
            reg: Reg::zero(self.max.len()),
        }
    }
    pub fn inputs(&self, t: &Tree) -> BTreeSet<String> {
        match t {
            Tree::Leaf(i) => self.inputs[*i].clone(),
            Tree::Par(l, r) => {
                let (li, ri) = (self.inputs(l), self.inputs(r));
                let (lo, ro) = (self.outputs(l), self.outputs(r));
                li.difference(&ro).chain(ri.difference(&lo)).cloned().collect()
            }
            Tree::And(l, r) => self.inputs(l).intersection(&self.inputs(r)).cloned().collect(),
            Tree::Quot(l, r, _) => {
                let mut all: BTreeSet<String> = self.inputs(l).union(&self.outputs(r)).cloned().collect();
                all.insert(self.new_input(l, r));
                all
            }
        }
    }
    pub fn outputs(&self, t: &Tree) -> BTreeSet<String> {
        match t {
            Tree::Leaf(i) => self.outputs[*i].clone(),
            Tree::Par(l, r) => self.outputs(l).union(&self.outputs(r)).cloned().collect(),
            Tree::And(l, r) => self.outputs(l).intersection(&self.outputs(r)).cloned().collect(),
            Tree::Quot(l, r, _) => {
                let (li, ro) = (self.inputs(l), self.outputs(r));
                let (lo, ri) = (self.outputs(l), self.inputs(r));
                lo.difference(&ro).chain(ri.difference(&li)).cloned().collect()
            }
        }
    }
    /// The input a quotient has of its own.
    fn new_input(&self, l: &Tree, r: &Tree) -> String {
        let (li, ro) = (self.inputs(l), self.outputs(r));
        (0..).map(|i| format!("quotient_new_input{}", i)).find(|n| !li.contains(n) && !ro.contains(n)).unwrap()
    }
    pub fn actions(&self, t: &Tree) -> BTreeSet<String> {
        self.inputs(t).union(&self.outputs(t)).cloned().collect()
    }
    pub fn conj(&self, comp: usize, atoms: &[Atom], reg: &Reg) -> bool {
        atoms.iter().all(|a| reg.sat(self.offset[comp] + a.clock, a.rel, a.bound))
    }
    pub fn guard(&self, comp: usize, g: &[Vec<Atom>], reg: &Reg) -> bool {
        g.is_empty() || g.iter().any(|c| self.conj(comp, c, reg))
    }
    pub fn inv_comp(&self, comp: usize, st: &St) -> bool {
        self.conj(comp, &self.comps[comp].locs[st.locs[comp] as usize].inv, &st.reg)
    }
    pub fn inv(&self, t: &Tree, st: &St) -> bool {
        match t {
            Tree::Leaf(i) => self.inv_comp(*i, st),
            Tree::Par(l, r) | Tree::And(l, r) => self.inv(l, st) && self.inv(r, st),
            Tree::Quot(_, _, q) => self.inv_comp(*q, st),
        }
    }
    /// The edge can be taken: its guard holds and its target's invariant afterwards.
    pub fn edge_enabled(&self, comp: usize, edge: usize, reg: &Reg) -> bool {
        let e = &self.comps[comp].edges[edge];
        if !self.guard(comp, &e.guard, reg) {
            return false;
        }
        let mut r = reg.clone();
        for (x, v) in &e.resets {
            r.reset(self.offset[comp] + x, *v, &self.max);
        }
        self.conj(comp, &self.comps[comp].locs[e.tgt].inv, &r)
    }
    fn leaf_moves(&self, comp: usize, st: &St, action: &str) -> Vec<Option<usize>> {
        let c = self.comps[comp];
        let at = st.locs[comp] as usize;
        let is_input = self.inputs[comp].contains(action);
        match c.locs[at].kind {
            LocKind::Universal => return vec![None],
            LocKind::Inconsistent if is_input => return vec![None],
            _ => {}
        }
        let mut out = vec![];
        for (i, e) in c.edges.iter().enumerate() {
            if e.src == at && e.action == action && self.edge_enabled(comp, i, &st.reg) {
                out.push(Some(i));
            }
        }
        if out.is_empty() && is_input {
            out.push(None);
        }
        out
    }
    /// Everything that can be done with this action.
    pub fn moves(&self, t: &Tree, st: &St, action: &str) -> Vec<Move> {
        match t {
            Tree::Leaf(i) => self
                .leaf_moves(*i, st, action)
                .into_iter()
                .map(|e| Move { parts: vec![(*i, e)], gone: vec![] })
                .collect(),
            Tree::Par(l, r) | Tree::And(l, r) => {
                let in_l = self.actions(l).contains(action);
                let in_r = self.actions(r).contains(action);
                if in_l && in_r {
                    let ls = self.moves(l, st, action);
                    let rs = self.moves(r, st, action);
                    let mut out = vec![];
                    for a in &ls {
                        for b in &rs {
                            out.push(a.with(b));
                        }
                    }
                    out
                } else if in_l {
                    self.moves(l, st, action)
                } else {
                    self.moves(r, st, action)
                }
            }
            Tree::Quot(l, r, q) => self.quotient_moves(t, l, r, *q, st, action),
        }
    }
    fn quotient_moves(&self, whole: &Tree, t: &Tree, s: &Tree, q: usize, st: &St, action: &str) -> Vec<Move> {
        let stay = || vec![Move { parts: vec![], gone: vec![] }];
        match st.locs[q] {
            1 => return stay(),
            2 if self.inputs(whole).contains(action) => return stay(),
            2 => return vec![],
            _ => {}
        }
        let leave = |edge: usize| {
            let mut gone = vec![];
            t.leaves(&mut gone);
            s.leaves(&mut gone);
            vec![Move { parts: vec![(q, Some(edge))], gone }]
        };
        // the second may do anything once it has broken its promise
        if !self.inv(s, st) {
            return leave(TO_UNIVERSAL);
        }
        let inv_t = self.inv(t, st);
        if action == self.new_input(t, s) {
            return if inv_t { vec![] } else { leave(TO_ERROR) };
        }
        let (in_t, in_s) = (self.actions(t).contains(action), self.actions(s).contains(action));
        let ts = if in_t && inv_t { self.moves(t, st, action) } else { vec![] };
        let ss = if in_s { self.moves(s, st, action) } else { vec![] };
        if self.outputs(s).contains(action) {
            if ss.is_empty() {
                return leave(TO_UNIVERSAL);
            }
            if self.outputs(t).contains(action) && ts.is_empty() {
                return leave(TO_ERROR);
            }
        }
        match (in_t, in_s) {
            (true, true) => ts.iter().flat_map(|a| ss.iter().map(move |b| a.with(b))).collect(),
            (true, false) => ts,
            _ => ss,
        }
    }
    pub fn apply(&self, st: &St, m: &Move) -> St {
        let mut s = st.clone();
        for comp in &m.gone {
            s.locs[*comp] = 0;
        }
        for (comp, e) in &m.parts {
            if let Some(e) = e {
                let e = &self.comps[*comp].edges[*e];
                s.locs[*comp] = e.tgt as u8;
                for (x, v) in &e.resets {
                    s.reg.reset(self.offset[*comp] + x, *v, &self.max);
                }
            }
        }
        s
    }
    /// The states reached by letting time pass while the invariant holds, the first included.
    pub fn delays(&self, t: &Tree, st: &St) -> Vec<St> {
        let mut out = vec![st.clone()];
        loop {
            let last = out.last().unwrap();
            let next = St { locs: last.locs.clone(), reg: last.reg.delay(&self.max) };
            if next.reg == last.reg || !self.inv(t, &next) {
                return out;
            }
            out.push(next);
        }
    }
    /// Time can pass forever from here.
    pub fn forever(&self, t: &Tree, st: &St) -> bool {
        let last = self.delays(t, st).pop().unwrap();
        last.reg.delay(&self.max) == last.reg
    }

    /// All reachable states, time steps included. None if there are more than `limit`.
    pub fn reachable(&self, t: &Tree, limit: usize) -> Option<HashSet<St>> {
        self.reachable_from(t, &[self.initial()], limit)
    }
    pub fn reachable_from(&self, t: &Tree, from: &[St], limit: usize) -> Option<HashSet<St>> {
        let mut seen = HashSet::new();
        let mut todo = VecDeque::new();
        for i in from {
            if self.inv(t, i) && seen.insert(i.clone()) {
                todo.push_back(i.clone());
            }
        }
        let actions = self.actions(t);
        while let Some(st) = todo.pop_front() {
            if seen.len() > limit {
                return None;
            }
            let next = St { locs: st.locs.clone(), reg: st.reg.delay(&self.max) };
            if self.inv(t, &next) && seen.insert(next.clone()) {
                todo.push_back(next);
            }
            for a in &actions {
                for m in self.moves(t, &st, a) {
                    let n = self.apply(&st, &m);
                    if self.inv(t, &n) && seen.insert(n.clone()) {
                        todo.push_back(n);
                    }
                }
            }
        }
        Some(seen)
    }

    /// A reachable state in which a component has two edges for one action.
    pub fn nondeterministic_state(&self, comp: usize, limit: usize) -> Option<Option<St>> {
        let t = Tree::Leaf(comp);
        let all = self.reachable(&t, limit)?;
        for st in &all {
            for a in self.actions(&t) {
                if self.leaf_moves(comp, st, &a).len() > 1 {
                    return Some(Some(st.clone()));
                }
            }
        }
        Some(None)
    }
    /// Some location the initial one is connected to has two edges for one action that overlap.
    /// All constraints are bounds of single clocks, so looking at each clock on its own is exact.
    pub fn overlapping_edges(&self, comp: usize) -> bool {
        let c = self.comps[comp];
        let mut seen: HashSet<usize> = HashSet::new();
        let mut todo: Vec<usize> = c.initial().into_iter().collect();
        while let Some(l) = todo.pop() {
            if seen.insert(l) {
                todo.extend(c.edges.iter().filter(|e| e.src == l && c.locs[l].kind != LocKind::Universal).map(|e| e.tgt));
            }
        }
        // Per disjunct of an edge, the atoms that have to hold; None if there are none that can
        let needs = |e: &crate::model::Edge| -> Vec<Vec<Atom>> {
            let mut base = c.locs[e.src].inv.clone();
            for a in &c.locs[e.tgt].inv {
                match e.resets.iter().rev().find(|r| r.0 == a.clock) {
                    Some(r) if a.rel.holds(r.1, a.bound) => {}
                    Some(_) => return vec![],
                    None => base.push(*a),
                }
            }
            if e.guard.is_empty() {
                return vec![base];
            }
            e.guard.iter().map(|g| base.iter().chain(g).cloned().collect()).collect()
        };
        for (i, e) in c.edges.iter().enumerate() {
            if !seen.contains(&e.src) || matches!(c.locs[e.src].kind, LocKind::Universal) {
                continue;
            }
            for f in &c.edges[i + 1..] {
                if e.src != f.src || e.action != f.action {
                    continue;
                }
                for a in needs(e) {
                    for b in needs(f) {
                        let both: Vec<Atom> = a.iter().chain(&b).cloned().collect();
                        if satisfiable(&both, c.clocks.len()) {
                            return true;
                        }
                    }
                }
            }
        }
        false
    }

    /// Consistency of the system as one. None if too large.
    pub fn consistent(&self, t: &Tree, limit: usize) -> Option<bool> {
        if !self.inv(t, &self.initial()) {
            return Some(false);
        }
        self.symbolic(t, limit).map(|s| s[0].1)
    }
    /// The symbolic states (locations and the regions time may take them through), and which of
    /// them are consistent. The first is the initial one.
    pub fn symbolic(&self, t: &Tree, limit: usize) -> Option<Vec<((Vec<u8>, BTreeSet<Reg>), bool)>> {
        let mut init = self.initial();
        // Clocks of other components do not matter.
        let mut leaves = vec![];
        t.leaves(&mut leaves);
        for (i, comp) in self.comps.iter().enumerate() {
            if !leaves.contains(&i) {
                for x in 0..comp.clocks.len() {
                    init.reg.0[self.offset[i] + x] = (ABOVE, 0);
                }
            }
        }
        type Sym = (Vec<u8>, BTreeSet<Reg>);
        let close = |locs: &Vec<u8>, regs: BTreeSet<Reg>| -> Sym {
            let mut out = BTreeSet::new();
            for r in regs {
                for s in self.delays(t, &St { locs: locs.clone(), reg: r }) {
                    out.insert(s.reg);
                }
            }
            (locs.clone(), out)
        };
        let inputs = self.inputs(t);
        let outputs = self.outputs(t);
        let first = close(&init.locs, BTreeSet::from([init.reg.clone()]));
        let mut index: HashMap<Sym, usize> = HashMap::new();
        let mut syms: Vec<Sym> = vec![];
        let mut succ: Vec<(Vec<usize>, Vec<usize>)> = vec![];
        index.insert(first.clone(), 0);
        syms.push(first);
        let mut at = 0;
        let mut work = 0;
        while at < syms.len() {
            let (locs, regs) = syms[at].clone();
            let mut next = (vec![], vec![]);
            for (set, is_input) in [(&inputs, true), (&outputs, false)] {
                for a in set {
                    let mut by_move: BTreeMap<Move, (Vec<u8>, BTreeSet<Reg>)> = BTreeMap::new();
                    for r in &regs {
                        work += 1;
                        let st = St { locs: locs.clone(), reg: r.clone() };
                        for m in self.moves(t, &st, a) {
                            let n = self.apply(&st, &m);
                            by_move.entry(m).or_insert_with(|| (n.locs.clone(), BTreeSet::new())).1.insert(n.reg);
                        }
                    }
                    for (_, (l, rs)) in by_move {
                        let sym = close(&l, rs);
                        let k = match index.get(&sym) {
                            Some(k) => *k,
                            None => {
                                index.insert(sym.clone(), syms.len());
                                syms.push(sym);
                                syms.len() - 1
                            }
                        };
                        if is_input {
                            next.0.push(k);
                        } else {
                            next.1.push(k);
                        }
                    }
                }
            }
            succ.push(next);
            at += 1;
            if syms.len() > limit || work > 300_000 {
                return None;
            }
        }
        let free: Vec<bool> = syms
            .iter()
            .map(|(l, rs)| rs.iter().any(|r| self.forever(t, &St { locs: l.clone(), reg: r.clone() })))
            .collect();
        // A component says itself that a location is inconsistent.
        let mut good: Vec<bool> = syms
            .iter()
            .map(|(l, _)| !matches!(t, Tree::Leaf(i) if self.comps[*i].locs[l[*i] as usize].kind == LocKind::Inconsistent))
            .collect();
        loop {
            let now: Vec<bool> = (0..syms.len())
                .map(|i| good[i] && succ[i].0.iter().all(|k| good[*k]) && (free[i] || succ[i].1.iter().any(|k| good[*k])))
                .collect();
            if now == good {
                return Some(syms.into_iter().zip(good).collect());
            }
            good = now;
        }
    }

    /// The pairs of states the two sides can get to together. None if too large.
    pub fn pairs(&self, s: &Tree, t: &Tree, limit: usize) -> Option<HashSet<St>> {
        let (so, to) = (self.outputs(s), self.outputs(t));
        let (si, ti) = (self.inputs(s), self.inputs(t));
        let init = self.initial();
        let both = |st: &St| self.inv(s, st) && self.inv(t, st);
        let mut seen = HashSet::new();
        let mut todo = VecDeque::new();
        if both(&init) {
            seen.insert(init.clone());
            todo.push_back(init);
        }
        let stay = vec![Move { parts: vec![], gone: vec![] }];
        while let Some(st) = todo.pop_front() {
            if seen.len() > limit {
                return None;
            }
            let mut next = vec![St { locs: st.locs.clone(), reg: st.reg.delay(&self.max) }];
            for a in so.iter().chain(&ti) {
                let m1 = if so.contains(a) || si.contains(a) { self.moves(s, &st, a) } else { stay.clone() };
                let m2 = if to.contains(a) || ti.contains(a) { self.moves(t, &st, a) } else { stay.clone() };
                for a in &m1 {
                    for b in &m2 {
                        next.push(self.apply(&self.apply(&st, a), b));
                    }
                }
            }
            for n in next {
                if both(&n) && seen.insert(n.clone()) {
                    todo.push_back(n);
                }
            }
        }
        Some(seen)
    }

    /// Does `s` refine `t`, given that both are what refinement asks for?
    pub fn refines(&self, s: &Tree, t: &Tree, limit: usize) -> Option<Result<usize, String>> {
        let (so, to) = (self.outputs(s), self.outputs(t));
        let (si, ti) = (self.inputs(s), self.inputs(t));
        let init = self.initial();
        if !self.inv(s, &init) || !self.inv(t, &init) {
            return Some(Err("no common initial state".into()));
        }
        let mut seen = HashSet::new();
        let mut todo = VecDeque::new();
        seen.insert(init.clone());
        todo.push_back(init);
        let stay = vec![Move { parts: vec![], gone: vec![] }];
        while let Some(st) = todo.pop_front() {
            if seen.len() > limit {
                return None;
            }
            let show = || format!("locations {:?} clocks {}", st.locs, st.reg.show());
            let next = St { locs: st.locs.clone(), reg: st.reg.delay(&self.max) };
            if self.inv(s, &next) {
                if !self.inv(t, &next) {
                    return Some(Err(format!("the right side does not allow the delay from {}", show())));
                }
                if seen.insert(next.clone()) {
                    todo.push_back(next);
                }
            }
            let mut pairs = vec![];
            for a in &so {
                let m1 = self.moves(s, &st, a);
                if m1.is_empty() {
                    continue;
                }
                let m2 = if to.contains(a) { self.moves(t, &st, a) } else { stay.clone() };
                if m2.is_empty() {
                    return Some(Err(format!("output {} of the left side is not matched in {}", a, show())));
                }
                pairs.push((m1, m2));
            }
            for a in &ti {
                let m2 = self.moves(t, &st, a);
                if m2.is_empty() {
                    continue;
                }
                let m1 = if si.contains(a) { self.moves(s, &st, a) } else { stay.clone() };
                if m1.is_empty() {
                    return Some(Err(format!("input {} of the right side is not matched in {}", a, show())));
                }
                pairs.push((m1, m2));
            }
            for (m1, m2) in pairs {
                for a in &m1 {
                    for b in &m2 {
                        let n = self.apply(&self.apply(&st, a), b);
                        if seen.insert(n.clone()) {
                            todo.push_back(n);
                        }
                    }
                }
            }
        }
        Some(Ok(seen.len()))
    }
}
