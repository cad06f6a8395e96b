//! Component models as the checks generate them, and their JSON and XML texts.
use pbt::Case;
use serde_json::json;

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum Rel {
    Le,
    Lt,
    Ge,
    Gt,
    Eq,
}
impl Rel {
    pub fn text(self) -> &'static str {
        match self {
            Rel::Le => "<=",
            Rel::Lt => "<",
            Rel::Ge => ">=",
            Rel::Gt => ">",
            Rel::Eq => "==",
        }
    }
    /// With the sides exchanged.
    pub fn flipped(self) -> Rel {
        match self {
            Rel::Le => Rel::Ge,
            Rel::Lt => Rel::Gt,
            Rel::Ge => Rel::Le,
            Rel::Gt => Rel::Lt,
            Rel::Eq => Rel::Eq,
        }
    }
    pub fn holds(self, a: i64, b: i64) -> bool {
        match self {
            Rel::Le => a <= b,
            Rel::Lt => a < b,
            Rel::Ge => a >= b,
            Rel::Gt => a > b,
            Rel::Eq => a == b,
        }
    }
}

/// `clock rel bound`, the clock by its index in the component.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct Atom {
    pub clock: usize,
    pub rel: Rel,
    pub bound: i64,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum LocKind {
    Normal,
    Initial,
    Universal,
    Inconsistent,
}

#[derive(Clone, Debug)]
pub struct Loc {
    pub id: String,
    pub kind: LocKind,
    pub inv: Vec<Atom>,
}

#[derive(Clone, Debug)]
pub struct Edge {
    pub id: String,
    pub src: usize,
    pub tgt: usize,
    pub input: bool,
    pub action: String,
    /// A disjunction of conjunctions. Empty: no guard.
    pub guard: Vec<Vec<Atom>>,
    pub resets: Vec<(usize, i64)>,
}

#[derive(Clone, Debug)]
pub struct Comp {
    pub name: String,
    pub clocks: Vec<String>,
    pub locs: Vec<Loc>,
    pub edges: Vec<Edge>,
    /// Whether universal locations are written with loops for `*`, as the editor does.
    pub stars: bool,
}

pub fn atom_text(a: &Atom, clocks: &[String]) -> String {
    format!("{}{}{}", clocks[a.clock], a.rel.text(), a.bound)
}
pub fn conj_text(c: &[Atom], clocks: &[String]) -> String {
    c.iter().map(|a| atom_text(a, clocks)).collect::<Vec<_>>().join(" && ")
}
pub fn guard_text(g: &[Vec<Atom>], clocks: &[String]) -> String {
    if g.len() == 1 {
        return conj_text(&g[0], clocks);
    }
    g.iter()
        .map(|c| if c.is_empty() { "true".into() } else { format!("({})", conj_text(c, clocks)) })
        .collect::<Vec<_>>()
        .join(" || ")
}
pub fn resets_text(r: &[(usize, i64)], clocks: &[String]) -> String {
    r.iter().map(|(c, v)| format!("{} = {}", clocks[*c], v)).collect::<Vec<_>>().join(", ")
}

impl Comp {
    pub fn initial(&self) -> Option<usize> {
        self.locs.iter().position(|l| l.kind == LocKind::Initial)
    }
    pub fn inputs(&self) -> Vec<String> {
        self.acts(true)
    }
    pub fn outputs(&self) -> Vec<String> {
        self.acts(false)
    }
    fn acts(&self, input: bool) -> Vec<String> {
        let mut v: Vec<String> = self.edges.iter().filter(|e| e.input == input).map(|e| e.action.clone()).collect();
        v.sort();
        v.dedup();
        v
    }
    pub fn json(&self) -> String {
        let locs: Vec<_> = self
            .locs
            .iter()
            .map(|l| {
                json!({
                    "id": l.id, "nickname": "", "invariant": conj_text(&l.inv, &self.clocks),
                    "type": match l.kind {
                        LocKind::Normal => "NORMAL",
                        LocKind::Initial => "INITIAL",
                        LocKind::Universal => "UNIVERSAL",
                        LocKind::Inconsistent => "INCONSISTENT",
                    },
                    "urgency": "NORMAL", "x": 1.0, "y": 2.0, "color": "3", "nicknameX": 30.0,
                    "nicknameY": -10.0, "invariantX": 30.0, "invariantY": 10.0
                })
            })
            .collect();
        let mut edges: Vec<_> = self
            .edges
            .iter()
            .map(|e| {
                json!({
                    "id": e.id, "group": "", "sourceLocation": self.locs[e.src].id,
                    "targetLocation": self.locs[e.tgt].id,
                    "status": if e.input { "INPUT" } else { "OUTPUT" }, "select": "",
                    "guard": guard_text(&e.guard, &self.clocks),
                    "update": resets_text(&e.resets, &self.clocks),
                    "sync": e.action, "isLocked": false, "nails": []
                })
            })
            .collect();
        for l in self.locs.iter().filter(|l| self.stars && l.kind == LocKind::Universal) {
            for status in ["INPUT", "OUTPUT"] {
                edges.push(json!({
                    "id": format!("{}{}", l.id, status), "group": "", "sourceLocation": l.id, "targetLocation": l.id,
                    "status": status, "select": "", "guard": "", "update": "", "sync": "*", "isLocked": false, "nails": []
                }));
            }
        }
        json!({
            "name": self.name,
            "declarations": if self.clocks.is_empty() { String::new() } else { format!("clock {};", self.clocks.join(", ")) },
            "locations": locs, "edges": edges, "description": "", "x": 5.0, "y": 5.0,
            "width": 450.0, "height": 600.0, "color": "6", "includeInPeriodicCheck": false
        })
        .to_string()
    }
    /// One UPPAAL template.
    pub fn template(&self) -> String {
        let mut s = String::from("<template>");
        s += &format!("<name>{}</name>", self.name);
        if !self.clocks.is_empty() {
            s += &format!("<declaration>clock {};</declaration>", self.clocks.join(", "));
        }
        for l in &self.locs {
            s += &format!("<location id=\"{}\">", l.id);
            if !l.inv.is_empty() {
                s += &format!("<label kind=\"invariant\">{}</label>", escape(&conj_text(&l.inv, &self.clocks)));
            }
            s += "</location>";
        }
        if let Some(i) = self.initial() {
            s += &format!("<init ref=\"{}\"/>", self.locs[i].id);
        }
        for e in &self.edges {
            s += &format!("<transition><source ref=\"{}\"/><target ref=\"{}\"/>", self.locs[e.src].id, self.locs[e.tgt].id);
            if !e.guard.is_empty() {
                s += &format!("<label kind=\"guard\">{}</label>", escape(&guard_text(&e.guard, &self.clocks)));
            }
            s += &format!("<label kind=\"synchronisation\">{}{}</label>", e.action, if e.input { "?" } else { "!" });
            if !e.resets.is_empty() {
                s += &format!("<label kind=\"assignment\">{}</label>", resets_text(&e.resets, &self.clocks));
            }
            s += "</transition>";
        }
        s + "</template>"
    }
    /// Short form for reports.
    pub fn show(&self) -> String {
        let mut s = format!("{}[clocks {}]", self.name, self.clocks.join(","));
        for l in &self.locs {
            s += &format!(
                " {}{}{}",
                l.id,
                match l.kind {
                    LocKind::Normal => "",
                    LocKind::Initial => "(init)",
                    LocKind::Universal => "(univ)",
                    LocKind::Inconsistent => "(inc)",
                },
                if l.inv.is_empty() { String::new() } else { format!("{{{}}}", conj_text(&l.inv, &self.clocks)) }
            );
        }
        for e in &self.edges {
            s += &format!(
                "; {}:{}-{}{}->{}",
                e.id,
                self.locs[e.src].id,
                e.action,
                if e.input { "?" } else { "!" },
                self.locs[e.tgt].id
            );
            if !e.guard.is_empty() {
                s += &format!(" [{}]", guard_text(&e.guard, &self.clocks));
            }
            if !e.resets.is_empty() {
                s += &format!(" {{{}}}", resets_text(&e.resets, &self.clocks));
            }
        }
        s
    }
    /// The largest constant any clock is compared with.
    pub fn max_consts(&self) -> Vec<i64> {
        let mut m = vec![0; self.clocks.len()];
        for a in self.locs.iter().flat_map(|l| &l.inv).chain(self.edges.iter().flat_map(|e| e.guard.iter().flatten())) {
            m[a.clock] = m[a.clock].max(a.bound);
        }
        m
    }
}

pub fn escape(s: &str) -> String {
    s.replace('&', "&amp;").replace('<', "&lt;").replace('>', "&gt;")
}

pub fn xml_project(comps: &[Comp]) -> String {
    let mut s = String::from("<?xml version=\"1.0\" encoding=\"utf-8\"?><nta><declaration></declaration>");
    for c in comps {
        s += &c.template();
    }
    s += "<system>system ";
    s += &comps.iter().map(|c| c.name.clone()).collect::<Vec<_>>().join(", ");
    s += ";</system></nta>";
    s
}

/// What is generated.
#[derive(Clone, Debug)]
pub struct Params {
    pub locs: usize,
    pub clocks: usize,
    pub max_const: i64,
    /// Actions the component may use.
    pub inputs: Vec<String>,
    pub outputs: Vec<String>,
    /// Keep same-action guards of one location disjoint.
    pub deterministic: bool,
    /// Locations with an invariant get an output that is always possible.
    pub progress: bool,
    /// In percent.
    pub inv_pct: u64,
    pub guard_pct: u64,
    pub reset_pct: u64,
    /// Values other than 0 in updates.
    pub reset_values: bool,
    pub disjunctions: bool,
    /// Upper and lower bounds in invariants.
    pub any_inv: bool,
}
impl Params {
    pub fn new(inputs: &[&str], outputs: &[&str]) -> Params {
        Params {
            locs: 3,
            clocks: 2,
            max_const: 4,
            inputs: inputs.iter().map(|s| s.to_string()).collect(),
            outputs: outputs.iter().map(|s| s.to_string()).collect(),
            deterministic: true,
            progress: true,
            inv_pct: 40,
            guard_pct: 50,
            reset_pct: 50,
            reset_values: true,
            disjunctions: false,
            any_inv: false,
        }
    }
}

pub fn gen_atom(c: &mut Case, clocks: usize, max: i64) -> Atom {
    let rel = *c.pick(&[Rel::Le, Rel::Ge, Rel::Lt, Rel::Gt, Rel::Ge, Rel::Le, Rel::Eq]);
    Atom { clock: c.idx(clocks), rel, bound: c.range(0, max) }
}

/// A partition of the valuations by one clock: 1 to 3 disjoint pieces.
fn pieces(c: &mut Case, clocks: usize, max: i64) -> Vec<Vec<Atom>> {
    let x = c.idx(clocks);
    let b = c.range(0, max);
    let strict = c.chance(1, 2);
    let (lo, hi) = if strict { (Rel::Lt, Rel::Ge) } else { (Rel::Le, Rel::Gt) };
    let mut out = vec![vec![Atom { clock: x, rel: lo, bound: b }], vec![Atom { clock: x, rel: hi, bound: b }]];
    if c.chance(1, 4) {
        let b2 = b + c.range(1, 2);
        if b2 <= max + 1 {
            out[1].push(Atom { clock: x, rel: Rel::Le, bound: b2 });
            out.push(vec![Atom { clock: x, rel: Rel::Gt, bound: b2 }]);
        }
    }
    out
}

pub fn gen_inv(c: &mut Case, clocks: usize, max: i64) -> Vec<Atom> {
    let n = if c.chance(1, 5) { 2 } else { 1 };
    (0..n)
        .map(|_| Atom {
            clock: c.idx(clocks),
            rel: if c.chance(1, 4) { Rel::Lt } else { Rel::Le },
            bound: c.range(1, max),
        })
        .collect()
}

fn gen_resets(c: &mut Case, p: &Params) -> Vec<(usize, i64)> {
    let mut r: Vec<(usize, i64)> = vec![];
    for x in 0..p.clocks {
        if c.chance(p.reset_pct, 100) {
            let v = if p.reset_values && c.chance(1, 4) { c.range(0, p.max_const) } else { 0 };
            r.push((x, v));
        }
    }
    r
}

pub fn gen_comp(c: &mut Case, name: &str, p: &Params) -> Comp {
    let nl = 1 + c.idx(p.locs);
    let clocks: Vec<String> = ["x", "y", "z", "w"][..p.clocks].iter().map(|s| s.to_string()).collect();
    let mut comp = Comp { name: name.into(), clocks, locs: vec![], edges: vec![], stars: false };
    for i in 0..nl {
        let inv = if p.clocks > 0 && c.chance(p.inv_pct, 100) {
            let mut inv = gen_inv(c, p.clocks, p.max_const);
            if p.any_inv && c.chance(1, 3) {
                inv.push(gen_atom(c, p.clocks, p.max_const));
            }
            inv
        } else {
            vec![]
        };
        comp.locs.push(Loc {
            id: format!("L{}", i),
            kind: if i == 0 { LocKind::Initial } else { LocKind::Normal },
            inv,
        });
    }
    let mut id = 0;
    for src in 0..nl {
        let mut free_output = false;
        let acts: Vec<(bool, String)> = p
            .outputs
            .iter()
            .map(|a| (false, a.clone()))
            .chain(p.inputs.iter().map(|a| (true, a.clone())))
            .collect();
        for (input, action) in acts {
            // 0: none, 1: one, 2: pieces of a partition
            let how = c.below(if input { 4 } else { 5 });
            let mut guards: Vec<Vec<Vec<Atom>>> = vec![];
            if p.clocks == 0 {
                if how >= 1 {
                    guards.push(vec![]);
                }
            } else {
                match how {
                    0 => {}
                    1 | 2 => {
                        if c.chance(p.guard_pct, 100) {
                            let n = 1 + c.idx(2);
                            let mut g = vec![(0..n).map(|_| gen_atom(c, p.clocks, p.max_const)).collect::<Vec<_>>()];
                            if p.disjunctions && c.chance(1, 3) {
                                g.push(vec![gen_atom(c, p.clocks, p.max_const)]);
                            }
                            guards.push(g);
                        } else {
                            guards.push(vec![]);
                        }
                    }
                    _ => {
                        for piece in pieces(c, p.clocks, p.max_const) {
                            if !c.chance(1, 4) {
                                guards.push(vec![piece]);
                            }
                        }
                    }
                }
            }
            if !p.deterministic && c.chance(1, 6) {
                guards.push(if p.clocks > 0 && c.chance(1, 2) { vec![vec![gen_atom(c, p.clocks, p.max_const)]] } else { vec![] });
            }
            for guard in guards {
                if !input && guard.is_empty() {
                    free_output = true;
                }
                let resets = gen_resets(c, p);
                comp.edges.push(Edge { id: format!("E{}", id), src, tgt: c.idx(nl), input, action: action.clone(), guard, resets });
                id += 1;
            }
        }
        if p.progress && !comp.locs[src].inv.is_empty() && !free_output && !p.outputs.is_empty() {
            // Replace one output's edges by an unguarded one that can always be taken.
            let action = c.pick(&p.outputs).clone();
            comp.edges.retain(|e| !(e.src == src && !e.input && e.action == action));
            let tgt = c.idx(nl);
            let resets = comp.locs[tgt].inv.iter().map(|a| (a.clock, 0)).collect::<std::collections::BTreeMap<_, _>>();
            comp.edges.push(Edge {
                id: format!("E{}", id),
                src,
                tgt,
                input: false,
                action,
                guard: vec![],
                resets: resets.into_iter().collect(),
            });
            id += 1;
        }
    }
    comp
}

/// Makes sure every action of `p` is in the component's alphabet (a location that cannot be
/// reached has an edge for it).
pub fn fill_alphabet(comp: &mut Comp, p: &Params) {
    let missing: Vec<(bool, String)> = p
        .inputs
        .iter()
        .map(|a| (true, a.clone()))
        .chain(p.outputs.iter().map(|a| (false, a.clone())))
        .filter(|(i, a)| !comp.edges.iter().any(|e| e.input == *i && e.action == *a))
        .collect();
    if missing.is_empty() {
        return;
    }
    let at = comp.locs.iter().position(|l| l.id == "Lu").unwrap_or(comp.locs.len());
    if at == comp.locs.len() {
        comp.locs.push(Loc { id: "Lu".into(), kind: LocKind::Normal, inv: vec![] });
    }
    for (input, action) in missing {
        let id = (comp.edges.len()..).map(|k| format!("Eu{}", k)).find(|n| !comp.edges.iter().any(|e| e.id == *n)).unwrap();
        comp.edges.push(Edge { id, src: at, tgt: at, input, action, guard: vec![], resets: vec![] });
    }
}

/// A variation of a component: a few edits of edges, guards, updates and invariants.
pub fn mutate(c: &mut Case, base: &Comp, name: &str, max: i64) -> Comp {
    let mut m = base.clone();
    m.name = name.into();
    let n = c.below(4);
    for _ in 0..n {
        match c.below(9) {
            0 if !m.edges.is_empty() => {
                let i = c.idx(m.edges.len());
                m.edges.remove(i);
            }
            1 if !m.edges.is_empty() => {
                let i = c.idx(m.edges.len());
                m.edges[i].tgt = c.idx(m.locs.len());
            }
            2 if !m.edges.is_empty() => {
                let i = c.idx(m.edges.len());
                if let Some(conj) = m.edges[i].guard.first_mut() {
                    if !conj.is_empty() {
                        let k = c.idx(conj.len());
                        conj[k].bound = (conj[k].bound + *c.pick(&[1, -1])).clamp(0, max);
                    }
                }
            }
            3 if !m.edges.is_empty() => {
                let i = c.idx(m.edges.len());
                m.edges[i].guard = vec![];
            }
            4 if !m.edges.is_empty() && !m.clocks.is_empty() => {
                let i = c.idx(m.edges.len());
                let x = c.idx(m.clocks.len());
                if let Some(k) = m.edges[i].resets.iter().position(|r| r.0 == x) {
                    m.edges[i].resets.remove(k);
                } else {
                    m.edges[i].resets.push((x, 0));
                }
            }
            5 => {
                let i = c.idx(m.locs.len());
                m.locs[i].inv = vec![];
            }
            6 => {
                let i = c.idx(m.locs.len());
                for a in &mut m.locs[i].inv {
                    a.bound = (a.bound + *c.pick(&[1, -1])).clamp(0, max);
                }
            }
            7 if !m.clocks.is_empty() => {
                let i = c.idx(m.locs.len());
                m.locs[i].inv = gen_inv(c, m.clocks.len(), max);
            }
            8 if !m.edges.is_empty() && !m.clocks.is_empty() => {
                let i = c.idx(m.edges.len());
                let a = gen_atom(c, m.clocks.len(), max);
                if m.edges[i].guard.is_empty() {
                    m.edges[i].guard = vec![vec![a]];
                } else {
                    m.edges[i].guard[0].push(a);
                }
            }
            _ => {}
        }
    }
    m
}
